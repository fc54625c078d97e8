"""Program points of the code under test as simulated time: counting them, interrupting at one of
them, and bounding their number.  A program point is the start of a line, or (opcodes=True) of a
single bytecode instruction, in a frame of pymech."""

import sys

from .core import PYMECH, StepLimit, injected

_EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit}


class LineTracer:
    """Counts events in pymech frames; raises an asynchronous exception at event number `at`, or
    StepLimit after `limit` events.  With `record`, remembers the program point of every event."""

    def __init__(self, at=None, exc="KeyboardInterrupt", limit=None, record=False, opcodes=False):
        self.n = 0
        self.at = at
        self.exc = exc
        self.limit = limit
        self.fired = False
        self.where = ""
        self.points = {} if record else None
        self.opcodes = opcodes

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PYMECH):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            n = self.n
            self.n = n + 1
            if self.points is not None:
                key = (frame.f_code, frame.f_lineno, frame.f_lasti if self.opcodes else 0)
                p = self.points.get(key)
                if p is None:
                    self.points[key] = [n]
                else:
                    p.append(n)
            if n == self.at:
                self.fired = True
                self.where = f"{frame.f_code.co_name}:{frame.f_lineno}"
                raise injected(_EXC[self.exc], "simulated interrupt")
            if self.limit is not None and n > self.limit:
                raise StepLimit(f"more than {self.limit} program steps")
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


def resolve_line(spec, tr):
    """The event number that an interrupt spec stands for, given the recorder of a dry run.
      {"f": x}            in proportion to the number of events
      {"u": x, "o": y}    a program point chosen uniformly, at one of the times it is reached"""
    if "u" in spec:
        pts = list(tr.points.values())
        if not pts:
            return 0
        p = pts[min(len(pts) - 1, int(spec["u"] * len(pts)))]
        return p[min(len(p) - 1, int(spec["o"] * len(p)))]
    return int(spec["f"] * max(1, tr.n))


def interrupted(spec, at):
    return LineTracer(at=at, exc=spec["exc"], opcodes=bool(spec.get("ops")))


def recorder(spec):
    return LineTracer(record="u" in spec, opcodes=bool(spec.get("ops")))


def gen_line(rng, exc):
    spec = {"exc": exc}
    if rng.chance(0.6):
        spec["u"] = round(rng.random(), 6)
        spec["o"] = rng.weighted((1, 0.0), (1, 0.9999), (1, round(rng.random(), 6)))
    else:
        spec["f"] = round(rng.random(), 6)
    if rng.chance(0.25):
        spec["ops"] = True
    return spec
