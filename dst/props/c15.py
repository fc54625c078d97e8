"""C15: the mesh audits catch every single damaged link and never flag a sound mesh."""

import numpy as np

from .. import hist, meshmodel as mm
from ..core import Rng, call
from ..forkeval import describe, freeze

RUNS = {"quick": 3500, "thorough": 80000}
RULE = ("A scenario builds meshes with a history of operations (with crashes and reloads), keeps those that an "
        "independent oracle finds sound, and then damages single records one after the other - the type, linked "
        "element or linked face of one internal or periodic link of one field, the place of one connected element, "
        "one condition emptied - with the audit called before, during and after each damage, which is undone in "
        "between; the whole mesh is rescaled in place now and then.  It is non-trivial if at least one damage was injected.")
REAL = ["pymech.core.HexaData.check_connectivity, check_bcs_present; pymech.meshtools (code under test)", "numpy"]
STUB = ["the mesh's memory (single records damaged and restored)", "raw file object (SimFileIO) in the set-up"]
ASSUMPTIONS = ["link numbers are integers, NaN or infinite (a fractional number is truncated)",
               "a displacement is beyond the tolerance if it is at least 1.3 times, and within if at most 0.3 times, the "
               "tolerance times the shortest edge", "any exception counts as a report"]
STATE = "distinct (audit, damage, label, dimension) tuples"

SETUP = dict(hist.WEIGHTS, refuse=0, callback=0, audit=0, cut=4, stack=3, curve=0.3)


def gen_damage(rng):
    k = rng.weighted((3, "type"), (3, "element"), (3, "face"), (2, "move"), (1, "nudge"), (2, "empty"), (1.2, "rescale"))
    dm = {"kind": k, "pick": rng.seed32(), "value": rng.seed32(), "label": rng.weighted((2, "E"), (2, "P"), (1, ""))}
    if k == "rescale":
        dm["power"] = rng.pick(-10, -6, -3, 3, 6, 10)
    if k in ("move", "nudge"):
        dm["amount"] = rng.pick(1.3, 2, 10, 300) if k == "move" else rng.pick(0.3, 0.1, 1e-3)
        dm["tol"] = rng.pick(None, None, 1e-2, 1e-5)
    return dm


def gen(rng, tier, i):
    if i % 100 == 37:
        return {"steps": hist.gen_big_history(rng, SETUP), "a": rng.randrange(8), "big": True, "wall": 250,
                "damages": [gen_damage(rng) for _ in range(rng.randint(2, 5))]}
    steps = hist.gen_history(rng, rng.weighted((2, 1), (3, 2), (3, 3), (2, rng.randint(4, 7))), SETUP)
    return {"steps": steps, "a": rng.randrange(8), "damages": [gen_damage(rng) for _ in range(rng.randint(1, 12))]}


def shrink(scn):
    d = scn["damages"]
    if len(d) > 1:
        yield dict(scn, damages=d[:len(d) // 2])
        yield dict(scn, damages=d[len(d) // 2:])
        for i in range(len(d)):
            yield dict(scn, damages=d[:i] + d[i + 1:])
    for s in hist.shrink_history(scn["steps"]):
        yield dict(scn, steps=s)
    if scn["a"]:
        yield dict(scn, a=0)


def run(sut, scn, ctx):
    w = hist.World(sut, ctx, lambda *a: None, big=scn.get("big", False))
    w.soft = w.exact = True
    for st in scn["steps"]:
        w.do(st)
    cand = [r[0] for r in w.regs if 0 < r[1].nel <= (4000 if scn.get("big") else 150)]
    if not cand:
        ctx.count("no_mesh")
        return
    order = cand[scn["a"] % len(cand):] + cand[: scn["a"] % len(cand)]
    for d in order:
        if len(d.elem) == d.nel and mm.closure(d, tol=1e-7) is None:
            break
    else:
        ctx.count("no_sound_mesh")
        return
    a = Audit(sut, ctx, d)
    a.sound("at the start")
    for dm in scn["damages"]:
        a.damage(dm)


class Audit:
    def __init__(self, sut, ctx, d):
        self.ctx, self.d = ctx, d
        self.image = freeze(d)
        self.nf = 2 * d.ndim
        rows = [el.bcs.tolist() for el in d.elem]
        self.links = [(b, i, f, rows[i][b][f][0]) for b in range(d.nbc) for i in range(d.nel) for f in range(self.nf)
                      if rows[i][b][f][0] in ("E", "P")]
        self.filled = [(b, i, f) for b in range(d.nbc) for i in range(d.nel) for f in range(self.nf)
                       if rows[i][b][f][0] != ""]
        self.complete = len(self.filled) == d.nbc * d.nel * self.nf
        self.tol = None
        self.power = 0

    def audit(self, name, good, what):
        fn = getattr(self.d, name)
        kw = {} if self.tol is None or name != "check_connectivity" else {"tol": self.tol}
        out = call(fn, **kw)
        self.ctx.steps += 1
        self.ctx.log(name, out.brief())
        if good:
            self.ctx.check(out.ok and out.value is True, "false-alarm",
                           lambda: f"{name} of a sound mesh: {out!r} {out.value!r} ({what})")
        else:
            self.ctx.check(not out.ok, "missed", lambda: f"{name} returned {out.value!r} although {what}")

    def unchanged(self, what, image=None):
        now = freeze(self.d)
        image = image or self.image
        self.ctx.check(now == image, "modified", lambda: f"the audit changed the mesh ({what}): {describe(image, now)}")

    def sound(self, what):
        self.audit("check_connectivity", True, what)
        self.audit("check_bcs_present", self.complete,
                   what if self.complete else "faces without a condition are there")
        self.unchanged(what)

    def damage(self, dm):
        d, ctx = self.d, self.ctx
        rng = Rng(dm["value"])
        kind = dm["kind"]
        self.tol = None
        if kind == "rescale":  # the user makes the whole mesh larger or smaller
            p = max(-20, min(20, self.power + dm["power"]))
            for el in d.elem:
                el.pos *= 2.0 ** (p - self.power)
            self.power = p
            self.image = freeze(d)
            ctx.fault("rescaled")
            self.sound("after the mesh was rescaled")
            return
        if kind in ("type", "element", "face"):
            links = [x for x in self.links if dm["label"] in ("", x[3])] or self.links
            if not links:
                return
            b, i, f, lab = links[dm["pick"] % len(links)]
            rec = d.elem[i].bcs[b, f]
            where = f"face {f} of element {i} field {b} ({lab}, connected to element {rec[3]} face {rec[4]})"
            if kind == "type":
                k, new = 0, rng.pick(*[x for x in ("E", "P", "", "W", "v", "O", "con", "SYM") if x != lab])
            elif kind == "element":
                k, new = 3, rng.weighted((5, float(rng.randint(1, max(1, d.nel)))), (1, 0.0), (1, -1.0), (1, d.nel + 1.0),
                                         (0.3, 1e6), (0.5, rec[3] - 1), (0.5, rec[3] + 1), (0.2, float("nan")),
                                         (0.2, float("inf")), (0.5, -rec[3]), (0.5, rec[3] - d.nel), (0.3, rec[3] + d.nel))
            else:
                k, new = 4, rng.weighted((6, float(rng.randint(1, self.nf))), (1, 0.0), (0.5, -1.0), (1, self.nf + 1.0),
                                         (0.5, 7.0), (0.3, -rec[4]), (0.3, rec[4] - self.nf), (0.2, float("nan")),
                                         (0.3, 100.0))
            old = rec[k].item() if hasattr(rec[k], "item") else rec[k]
            if new == old:
                return
            rec[k] = new
            what = f"{where}: {('type', '', '', 'linked element', 'linked face')[k]} was changed to {new!r}"
            ctx.fault("damaged_" + kind)
            ctx.state("connectivity", kind, lab, d.ndim)
            image = freeze(d)
            self.audit("check_connectivity", False, what)
            if kind == "type" and new == "":
                self.audit("check_bcs_present", False, what)
            self.unchanged(what, image)
            rec[k] = old
        elif kind in ("move", "nudge"):
            el_linked = sorted({i for (_, i, _, lab) in self.links if lab == "E"})
            if not el_linked:
                return
            i = el_linked[dm["pick"] % len(el_linked)]
            self.tol = dm["tol"]
            tol = 1e-3 if self.tol is None else self.tol
            m = mm.Mesh(d.ndim, 0, 0, [0] * 5)
            m.nel = d.nel
            m.pos = np.array([el.pos for el in d.elem])
            sc = m.scales()
            v = np.array([rng.gauss(0, 1) for _ in range(3)])
            v[d.ndim:] = 0
            if rng.chance(0.4):
                keep = rng.randrange(d.ndim)
                v = np.array([float(k == keep) for k in range(3)])
            v /= np.sqrt((v**2).sum())
            near = [int(d.elem[i].bcs[b, f][3]) - 1 for (b, k, f, lab) in self.links if k == i and lab == "E"]
            # the smaller element of a pair counts
            least = [min(sc[i], sc[j]) for j in near if j != i]
            if not least:
                return
            if rng.chance(0.3):
                size = dm["amount"] * tol * (sc[i] if kind == "move" else sc.min())
            else:
                size = dm["amount"] * tol * min(least)
            if size < 1e-9 * max(1.0, float(np.abs(m.pos).max())):
                return
            old = d.elem[i].pos.copy()
            d.elem[i].pos += (size * v)[:, None, None, None]
            what = (f"element {i} was displaced by {size:.3e} along {v.round(3).tolist()}, "
                    f"{dm['amount']} of the tolerance")
            ctx.fault("displaced" if kind == "move" else "nudged")
            ctx.state("connectivity", kind, d.ndim)
            image = freeze(d)
            self.audit("check_connectivity", kind == "nudge", what)
            self.unchanged(what, image)
            d.elem[i].pos[...] = old
        else:
            if not self.filled:
                return
            b, i, f = self.filled[dm["pick"] % len(self.filled)]
            rec = d.elem[i].bcs[b, f]
            old = str(rec[0])
            rec[0] = ""
            what = f"face {f} of element {i} field {b} has lost its condition {old!r}"
            ctx.fault("emptied")
            ctx.state("present", old, d.ndim)
            image = freeze(d)
            self.audit("check_bcs_present", False, what)
            if old in ("E", "P"):
                self.audit("check_connectivity", False, what)
            self.unchanged(what, image)
            rec[0] = old
        ctx.nontrivial = True
        self.tol = None
        self.sound("after the damage was undone")
