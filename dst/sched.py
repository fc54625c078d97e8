"""The scheduler: real threads of which exactly one runs at a time, and that change over only where
and when a seeded (or explicitly listed) schedule says.

Scheduling points are the program points of the code under test (lines, or single bytecode
instructions with opcodes=True) and every raw file operation.  A schedule is plain data:

  {"mode": "random", "seed": s, "p": p}             a switch at each point with probability p
  {"mode": "list", "switches": [[t, n, u], ...]}    when thread t is at its n-th point, go to thread u
                                                    (n = -1: when t has ended)

Locks created by the code under test are replaced by simulated ones (install_locks), so that a
thread that waits for one gives way; a state in which every thread waits is a violation."""

import random
import sys
import threading
import time
import _thread

from .core import PYMECH, HarnessError, StepLimit, Violation, call

_real_lock, _real_rlock = threading.Lock, threading.RLock
ACTIVE = None
STALL = 8.0


class Worker:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.n = 0
        self.done = False
        self.waiting = None
        self.out = None
        self.error = None
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.ident = None


class Sched:
    def __init__(self, ctx, spec, opcodes=False, limit=30_000_000):
        self.ctx, self.spec, self.opcodes, self.limit = ctx, spec, opcodes, limit
        self.rng = random.Random(spec.get("seed", 0)) if spec["mode"] == "random" else None
        self.p = spec.get("p", 0.0)
        self.table = {(t, n): u for t, n, u in spec.get("switches", ())}
        self.switches = []
        self.total = 0
        self.workers = []
        self.by_ident = {}
        self.abort = None
        self.finished = threading.Event()
        self.stalled = False
        self.pairs = set()

    # -- decisions -------------------------------------------------------
    def runnable(self, but=None):
        return [w for w in self.workers if not w.done and w is not but
                and (w.waiting is None or not w.waiting.held_by_other(w))]

    def choose(self, w, key):
        """The worker that goes on after w has reached (or ended at) this point."""
        if self.rng is not None:
            if key[1] != -1 and self.rng.random() >= self.p:
                return w
            c = self.runnable(w)
            if not c:
                return None if w.done or w.waiting else w
            return c[self.rng.randrange(len(c))]
        u = self.table.get(key)
        if u is not None:
            c = self.workers[u] if u < len(self.workers) else None
            if c is not None and not c.done and c is not w and c in self.runnable(w):
                return c
        if w.done or w.waiting:
            c = self.runnable(w)
            return c[0] if c else None
        return w

    # -- points ----------------------------------------------------------
    def point(self, where=""):
        w = self.by_ident.get(_thread.get_ident())
        if w is None:
            return
        w.n += 1
        self.total += 1
        if self.abort:
            raise StepLimit(self.abort)
        if self.total > self.limit:
            self.abort = f"more than {self.limit} scheduling points"
            raise StepLimit(self.abort)
        t = self.choose(w, (w.tid, w.n))
        if t is not None and t is not w:
            self.switch(w, t, w.n, where)

    def switch(self, w, t, n, where=""):
        self.switches.append([w.tid, n, t.tid])
        if len(self.switches) <= 2000:
            self.ctx.log("switch", w.tid, n, t.tid, where)
        self.ctx.count("switches")
        if where:
            self.pairs.add(where)
        t.gate.release()
        if not w.done:
            w.gate.acquire()
            if self.abort:
                raise StepLimit(self.abort)

    def block(self, w, lock):
        """w waits for a simulated lock."""
        w.waiting = lock
        self.ctx.count("lock_waits")
        w.n += 1
        self.total += 1
        t = self.choose(w, (w.tid, -1)) if self.rng is not None else self.choose(w, (w.tid, w.n))
        if t is None:
            w.waiting = None
            self.abort = "every thread waits for a lock"
            raise Violation("deadlock", self.abort)
        self.switch(w, t, w.n, "lock")
        w.waiting = None

    # -- tracing ---------------------------------------------------------
    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PYMECH):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point(frame.f_code.co_name)
        return self._local

    # -- running ---------------------------------------------------------
    def _body(self, w):
        w.ident = _thread.get_ident()
        w.gate.acquire()
        try:
            self.by_ident[w.ident] = w
            if self.abort:
                raise StepLimit(self.abort)
            sys.settrace(self._global)
            try:
                w.out = w.fn()
            finally:
                sys.settrace(None)
        except BaseException as e:
            w.error = e
        self.by_ident.pop(w.ident, None)
        w.done = True
        self.ctx.log("end", w.tid)
        if self.abort:
            # wake everybody up so that they can leave
            left = [x for x in self.workers if not x.done]
            if left:
                left[0].gate.release()
            else:
                self.finished.set()
            return
        t = self.choose(w, (w.tid, -1))
        if t is None:
            if any(not x.done for x in self.workers):
                self.abort = "every thread waits for a lock"
                w.error = Violation("deadlock", self.abort)
                next(x for x in self.workers if not x.done).gate.release()
            else:
                self.finished.set()
            return
        self.switch(w, t, -1)

    def run(self, fns, first=0):
        """Run the functions, each in its own thread, to their end; their outcomes in order."""
        global ACTIVE
        if ACTIVE is not None:
            raise HarnessError("nested schedulers")
        self.workers = [Worker(i, f) for i, f in enumerate(fns)]
        threads = []
        ACTIVE = self
        try:
            threading.stack_size(16 << 20)
            for w in self.workers:
                th = threading.Thread(target=self._body, args=(w,), daemon=True)
                th.start()
                threads.append(th)
            self.workers[first % len(self.workers)].gate.release()
            last, t0 = -1, time.monotonic()
            while not self.finished.wait(0.5):
                if self.total != last:
                    last, t0 = self.total, time.monotonic()
                elif time.monotonic() - t0 > STALL:
                    self._unstall()
                    t0 = time.monotonic()
            for th in threads:
                th.join(5)
        finally:
            ACTIVE = None
        for w in self.workers:
            if w.error is not None:
                raise w.error
        self.ctx.steps += self.total
        return [w.out for w in self.workers]

    def _unstall(self):
        """The running thread waits for something that is not simulated: let the others go on."""
        self.ctx.count("stalls")
        raise HarnessError("a thread waits for something outside the simulation")


# --------------------------------------------------------------------------- simulated locks
class SimLock:
    """A lock of the code under test."""

    reentrant = False

    def __init__(self):
        self._l = _real_lock()
        self._owner = None
        self._count = 0

    def held_by_other(self, w):
        return self._l.locked() and not (self.reentrant and self._owner == w.ident)

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        s = ACTIVE
        w = s.by_ident.get(me) if s is not None else None
        if w is None:
            ok = self._l.acquire(blocking, timeout)
        else:
            s.point("acquire")
            ok = self._l.acquire(False)
            while not ok and blocking:
                s.block(w, self)
                ok = self._l.acquire(False)
        if ok:
            self._owner, self._count = me, 1
        return ok

    def release(self):
        if self.reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._l.release()
        if ACTIVE is not None:
            ACTIVE.point("release")

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def install_locks():
    """Locks created by the code under test from now on are simulated (call before importing it)."""

    def make(real, sim):
        def factory(*a, **k):
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(PYMECH):
                return sim()
            return real(*a, **k)

        return factory

    threading.Lock = make(_real_lock, SimLock)
    threading.RLock = make(_real_rlock, SimRLock)


# --------------------------------------------------------------------------- schedules as data
def gen_spec(rng):
    return {"mode": "random", "seed": rng.seed32(), "p": rng.weighted((2, 0.3), (2, 0.05), (3, 0.01), (2, 0.002), (1, 0.0004))}


def concrete(switches):
    return {"mode": "list", "switches": [list(s) for s in switches]}


def shrink_spec(spec):
    if spec["mode"] != "list":
        return
    sw = spec["switches"]
    n = len(sw)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield dict(spec, switches=sw[:i] + sw[i + size:])
        size //= 2


__all__ = ["Sched", "install_locks", "gen_spec", "concrete", "shrink_spec", "call"]
