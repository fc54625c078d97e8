"""A dask scheduler whose workers are simulated threads: which ready task is started next, and where one
task gives way to another, is decided by a seeded schedule."""

import random

from . import sched
from .core import HarnessError


class Waiting:
    """What a worker without a task waits for."""

    def __init__(self, pool):
        self.pool = pool

    def held_by_other(self, w):
        return not (self.pool.ready or self.pool.over())


class Pool:
    def __init__(self, ctx, spec, tasks_seed, workers, opcodes=False):
        self.ctx, self.spec, self.opcodes = ctx, spec, opcodes
        self.rng = random.Random(tasks_seed)
        self.nworkers = workers
        self.switches = []
        self.calls = 0
        self.overlaps = 0
        self.s = None

    # -- dask's side ----------------------------------------------------
    def get(self, dsk, keys, **kw):
        from dask._task_spec import convert_legacy_graph

        if not isinstance(dsk, dict):
            dsk = dict(dsk) if not hasattr(dsk, "__dask_graph__") else dict(dsk.__dask_graph__())
        dsk = convert_legacy_graph(dsk)
        want = list(flatten(keys))
        order = canonical_order(dsk, want)
        if not any(isinstance(k, tuple) for k in order):  # (delayed calls; chunks of arrays have tuples for names)
            values = self.run(dsk, order)
        else:  # only xarray's own copies of arrays in memory: no file is read, no code of pymech runs
            values = {}
            for k in order:
                values[k] = dsk[k]({d: values[d] for d in dsk[k].dependencies})
        return nested(keys, values)

    # -- running ---------------------------------------------------------
    def over(self):
        return bool(self.failed) or not self.left

    def run(self, dsk, order):
        self.left = set(order)
        self.values = {}
        self.failed = []
        rank = {k: i for i, k in enumerate(order)}
        deps = {k: set(dsk[k].dependencies) for k in order}
        self.ready = sorted((k for k in order if not deps[k]), key=rank.get)
        self.running = 0
        names = {k: i for i, k in enumerate(order)}

        def work(w):
            while True:
                if self.over():
                    return
                if not self.ready:
                    if self.s is None:
                        raise HarnessError("no task is ready")
                    self.s.block(self.s.workers[w], waiting)
                    continue
                k = self.ready.pop(self.rng.randrange(len(self.ready)))
                self.ctx.log("task", w, names[k])
                self.running += 1
                if self.running > 1:
                    self.overlaps += 1
                try:
                    v = dsk[k]({d: self.values[d] for d in deps0[k]})
                except BaseException as e:
                    self.failed.append(e)
                    self.running -= 1
                    return
                self.running -= 1
                self.values[k] = v
                self.left.discard(k)
                for x in order:
                    if k in deps[x]:
                        deps[x].discard(k)
                        if not deps[x]:
                            self.ready.append(x)
                self.ready.sort(key=rank.get)
                if self.s is not None:
                    self.s.point("task")

        deps0 = {k: tuple(dsk[k].dependencies) for k in order}
        waiting = Waiting(self)
        self.calls += 1
        if self.nworkers == 1 or sched.ACTIVE is not None:
            work(0)
        else:
            spec = self.spec
            if spec["mode"] == "random":
                spec = dict(spec, seed=spec["seed"] + self.calls)
            else:
                spec = dict(spec, switches=[s[1:] for s in spec["switches"] if s[0] == self.calls])
            self.s = sched.Sched(self.ctx, spec, self.opcodes)
            call, lst = self.calls, self.switches
            self.s.switches = Tagged(lst, call)
            try:
                self.s.run([(lambda w=w: work(w)) for w in range(self.nworkers)])
            finally:
                self.s = None
        if self.failed:
            raise self.failed[0]
        return self.values


class Tagged(list):
    """Records every switch together with the number of the computation it belongs to."""

    def __init__(self, into, call):
        self.into, self.call = into, call
        self.n = 0

    def append(self, s):
        self.n += 1
        self.into.append([self.call] + s)

    def __len__(self):
        return self.n


def flatten(x):
    if isinstance(x, list):
        for y in x:
            yield from flatten(y)
    else:
        yield x


def nested(keys, values):
    if isinstance(keys, list):
        return tuple(nested(k, values) for k in keys)
    return values[keys]


def canonical_order(dsk, want):
    """The tasks needed, dependencies first, in an order that does not depend on how they are named."""
    order, seen = [], set()
    stack = [(k, False) for k in reversed(want)]
    while stack:
        k, done = stack.pop()
        if done:
            order.append(k)
            continue
        if k in seen:
            continue
        seen.add(k)
        stack.append((k, True))
        for d in reversed(references(dsk[k])):
            if d not in seen:
                stack.append((d, False))
    return order


def references(task):
    """The keys a task depends on, in the order of its arguments."""
    deps = task.dependencies
    found = []

    def walk(x, depth=0):
        if depth > 6:
            return
        k = getattr(x, "key", None)
        if type(x).__name__ == "TaskRef" and k in deps:
            if k not in found:
                found.append(k)
            return
        if type(x).__name__ == "Alias" and x.target in deps:
            if x.target not in found:
                found.append(x.target)
            return
        for y in list(getattr(x, "args", ()) or ()) + list((getattr(x, "kwargs", None) or {}).values()):
            walk(y, depth + 1)
        if isinstance(x, (list, tuple)):
            for y in x:
                walk(y, depth + 1)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y, depth + 1)

    walk(task)
    for d in sorted(deps - set(found), key=lambda d: str(d)):
        found.append(d)
    return found
