"""C08: writing never alters the data written; refused writes leave the old file alone."""

from .. import gens, iosim, plans
from ..tracer import gen_line
from .c01 import shrink_attempts, shrink_field
from .c04 import shrink_mesh
from .c05 import hexa

RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("A scenario is a field or mesh and one to five writes of it in the formats that can or cannot hold "
        "it, over one of several prior contents, each under a buffer size, fragmentation and fault (full "
        "disk, write error, failing close or open, kill, interrupt at a file operation, program line or "
        "bytecode instruction); refused writes are made with every reason for refusal.  It is non-trivial "
        "if a write was fragmented, refused or hit by a fault.")
REAL = ["pymech.neksuite.field.writenek; pymech.neksuite.mesh.writere2, writerea; pymech.core.HexaData "
        "(code under test)", "CPython's file objects, numpy", "a real file in memory-backed scratch storage"]
STUB = ["raw file object (SimFileIO)", "builtins.open / io.open",
        "asynchronous exceptions (raised by a trace function at a chosen program point)"]
ASSUMPTIONS = ["the documented attributes of HexaData and Elem are its state",
               "interrupts arrive between bytecode instructions, as CPython delivers them"]
WRITERS = ("writenek", "writere2", "writerea")


def gen(rng, tier, i):
    kind = rng.weighted((3, "field"), (2, "re2"), (2, "rea"))
    scn = {"kind": kind, "attempts": []}
    if kind == "field":
        scn["spec"] = gens.gen_field(rng, big=rng.chance(0.02))
        if rng.chance(0.12):
            scn["spec"]["elmap"] = {"zero": rng.weighted((1, "all"), (2, rng.seed32()))}
    else:
        scn["spec"] = gens.gen_mesh(rng, big=rng.chance(0.01), fmt=kind)
        if kind == "rea":
            scn["spec"]["order"] = rng.weighted((3, None), (1, [rng.randint(2, 4) for _ in range(3)]))
    if scn["spec"]["nel"] > 30000:  # pictures of these would take minutes
        scn["spec"]["nel"] //= 20
    for _ in range(rng.randint(1, 5)):
        scn["attempts"].append(gen_attempt(rng, kind))
    return scn


def gen_attempt(rng, kind):
    a = plans.gen_write_plan(rng)
    if rng.chance(0.35):
        a = {k: a[k] for k in ("bufsize", "frag") if k in a}
        a["line"] = gen_line(rng, plans.gen_exc(rng))
    a["prior"] = rng.pick("none", "empty", "short", "long")
    a["prior_seed"] = rng.seed32()
    a["writer"] = {"field": "writenek", "re2": rng.pick("writere2", "writere2", "writenek", "writerea"),
                   "rea": rng.pick("writerea", "writerea", "writenek", "writere2")}[kind]
    if rng.chance(0.3):
        a["refuse"] = rng.pick("wdsz", "wdsz", "lr1", "var")
        a["value"] = rng.pick(2, 0, 1, 16, -4, 3, 5, 6, 7, 9, 12, 32, 64)
        a["writer"] = "writenek" if a["refuse"] == "wdsz" else "writere2"
    return a


def shrink(scn):
    yield from shrink_attempts(scn)
    for f in (shrink_field if scn["kind"] == "field" else shrink_mesh)(scn["spec"]):
        yield dict(scn, spec=f)


def build(sut, scn):
    kind, spec = scn["kind"], scn["spec"]
    if kind == "field":
        return gens.hexa_field(sut, spec, gens.build_field(spec))
    m = gens.build_mesh(spec, kind)
    d = hexa(sut, spec, m)
    d.wdsz = 8
    return d


def reasons(d):
    """Why each writer cannot represent the object."""
    out = {"writenek": [], "writere2": [], "writerea": []}
    if d.wdsz not in (4, 8):
        out["writenek"].append("wdsz")
    if list(d.lr1) != [2, 2, d.ndim - 1]:
        out["writere2"].append("lr1")
    if d.var[0] != d.ndim:
        out["writere2"].append("var")
    return out


def run(sut, scn, ctx):
    for a in scn["attempts"]:
        d = build(sut, scn)
        why = a.get("refuse")
        if why == "wdsz":
            d.wdsz = a["value"]
        elif why == "lr1" and list(d.lr1) == [2, 2, d.ndim - 1]:
            lr1 = [[3, 2, d.ndim - 1], [2, 3, d.ndim - 1], [2, 2, d.ndim], [4, 4, 4 if d.ndim == 3 else 1],
                   [3, 3, 1]][a["value"] % 5]
            e = sut.core.HexaData(d.ndim, d.nel, lr1, list(d.var), d.nbc)
            d = e
        elif why == "var":
            v = list(d.var)
            v[0] = (0, 1, 5 - d.ndim)[a["value"] % 3]
            d.var = v
        refused = reasons(d)[a["writer"]]
        if a["writer"] == "writere2" and not refused and not isinstance(d.lr1, list):
            refused = None  # the shape is right but not a list: either answer will do
        path = ctx.path("out.file")
        prior = iosim.set_prior(path, a["prior"], None, a["prior_seed"])
        before = gens.snapshot(d)
        fn = getattr(sut.neksuite, a["writer"])
        size, sections = 4000, []
        plan = {k: a[k] for k in ("bufsize", "frag", "faults", "line") if k in a}
        if not refused:
            probe = iosim.call(fn, path, d)
            same(ctx, before, d, a, "a fault-free write")
            data = iosim.get(path)
            if probe.ok and data:
                size = len(data)
                sections = [("", 0, min(132, size)), ("", min(136, size), size)]
            iosim.set_prior(path, a["prior"], None, a["prior_seed"])
        att = iosim.attempt(ctx, lambda: fn(path, d), plan, size, sections,
                            reset=lambda: iosim.set_prior(path, a["prior"], None, a["prior_seed"]))
        ctx.state(a["writer"], scn["kind"], why or "", sorted(set(att.fired)), att.out.brief())
        same(ctx, before, d, a, f"a write that {att.out.brief()} (faults {att.fired}"
             + (", interrupted" if att.line_fired else "") + ")")
        if refused:
            ctx.nontrivial = True
            ctx.check(not att.out.ok or (att.out.value not in (None, 0)), "accepted",
                      lambda: f"{a['writer']} accepted data it cannot represent ({refused})")
            if prior is not None:
                ctx.check(iosim.get(path) == prior, "old-file-lost",
                          lambda: f"{a['writer']} refused the data ({refused}) but altered the file that was "
                          f"there: {len(prior)} bytes before, {len(iosim.get(path) or b'')} after")
            ctx.probe("refused")
        else:
            ctx.probe("unchanged")



def same(ctx, before, d, a, what):
    diff = gens.snap_diff(before, gens.snapshot(d))
    ctx.check(diff is None, "modified", lambda: f"{a['writer']}: the data were changed by {what}: {diff}")

