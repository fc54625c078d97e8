"""Scenario context, violations, deterministic randomness and call outcomes."""

import gc
import hashlib
import json
import os
import random
import sys
import traceback
from collections import Counter

REPO = os.environ.get("DST_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PYMECH = os.path.join(SRC, "pymech") + os.sep
HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep


class Violation(Exception):
    """The property was observed to be broken."""

    def __init__(self, cls, message):
        super().__init__(f"{cls}: {message}")
        self.cls = cls
        self.message = message


class HarnessError(Exception):
    """The machinery itself is at fault; never counts as a violation or as a pass."""


class SimKill(BaseException):
    """The simulated process dies at this point."""


class StepLimit(BaseException):
    """The bounded number of simulated steps has been exceeded."""


def injected(cls, *args):
    """An exception of ours (raise it without binding it to a name: that would keep the frames, and
    whatever they have open, alive in a reference cycle)."""
    e = cls(*args)
    e.dst_injected = True
    return e


def blame(e):
    """What an exception that nothing expected says about the code under test; None if it says nothing.

    The oracles read every object through its documented attributes and methods.  If one of these raises, or
    yields something of another form than documented (so that the oracle itself stumbles), the result is not
    what the property asks for.  Trouble of the machine (memory, storage, imports) and of the machinery is not."""
    if not isinstance(e, Exception) or isinstance(e, (HarnessError, Violation, OSError, MemoryError, RecursionError, ImportError)):
        return None
    tb = traceback.extract_tb(e.__traceback__)
    where = " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-3:]))
    return f"{type(e).__name__}: {str(e)[:200]} ({where})"


def derive_seed(*parts):
    text = ":".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


class Rng(random.Random):
    """The scenario generator's only source of choices."""

    def chance(self, p):
        return self.random() < p

    def pick(self, *options):
        return options[self.randrange(len(options))]

    def weighted(self, *pairs):
        total = sum(w for w, _ in pairs)
        x = self.random() * total
        for w, v in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][1]

    def seed32(self):
        return self.randrange(1 << 32)


class Ctx:
    """One simulated execution: its event log, its counters and its scratch directory."""

    def __init__(self, scratch, keep_log=False):
        self.scratch = scratch
        self.hash = hashlib.sha256()
        self.nevents = 0
        self.steps = 0
        self.stats = Counter()
        self.states = set()
        self.keep_log = keep_log
        self.log_lines = []

    def log(self, *parts):
        line = " ".join(str(p) for p in parts)
        # the scratch directory differs between runs; it must not reach the log
        line = line.replace(self.scratch, "<scratch>")
        self.hash.update(line.encode("utf-8", "replace") + b"\n")
        self.nevents += 1
        if self.keep_log:
            self.log_lines.append(line)

    def count(self, name, n=1):
        self.stats[name] += n

    def fault(self, kind):
        self.stats["fault:" + kind] += 1

    def probe(self, name):
        self.stats["probe:" + name] += 1

    def state(self, *parts):
        self.states.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:12])

    def check(self, cond, cls, message):
        self.stats["oracle_checks"] += 1
        if not cond:
            raise Violation(cls, message() if callable(message) else message)

    def path(self, name):
        return os.path.join(self.scratch, name)


class Outcome:
    """What a call into the code under test did.  Keeps no reference to the exception."""

    __slots__ = ("ok", "value", "etype", "msg", "is_oserror", "where", "is_base", "in_sut")

    def __init__(self):
        self.ok = False
        self.value = None
        self.etype = None
        self.msg = ""
        self.is_oserror = False
        self.is_base = False
        self.where = ""
        self.in_sut = False

    def brief(self):
        return "returned" if self.ok else f"raised {self.etype}"

    def __repr__(self):
        return "returned" if self.ok else f"raised {self.etype}({self.msg[:160]}) at {self.where}"


def call(fn, *args, **kwargs):
    """Call into the code under test and record what happened.

    Exceptions raised by the harness itself (violations, harness errors, exceeded step limits)
    pass through; everything else is recorded without keeping the traceback alive."""
    out = Outcome()
    try:
        out.value = fn(*args, **kwargs)
        out.ok = True
    except (Violation, HarnessError, StepLimit):
        raise
    except BaseException as e:  # noqa: B902 - simulated kills and interrupts included
        out.etype = type(e).__name__
        out.msg = str(e)
        out.is_oserror = isinstance(e, OSError)
        out.is_base = not isinstance(e, Exception)
        tb = traceback.extract_tb(e.__traceback__)
        out.in_sut = any(f.filename.startswith(PYMECH) for f in tb)
        if tb:
            last = tb[-1]
            out.where = f"{os.path.basename(last.filename)}:{last.name}"
            # an exception whose innermost frame is ours and that we did not inject is a defect of
            # the harness, unless it passed through the code under test (a callback or file seam)
            if not out.in_sut and last.filename.startswith(HERE) and not getattr(
                e, "dst_injected", False
            ):
                del tb, last
                raise HarnessError("exception in the harness: " + "".join(traceback.format_exception(e)))
        del tb
    return out


def canonical(obj):
    return json.dumps(obj, sort_keys=True, separators=(",", ":"))


def quiet_process():
    """Make a forked child deterministic and silent."""
    gc.disable()
    sys.unraisablehook = lambda *a: None
    import logging
    import warnings

    warnings.simplefilter("ignore")
    lg = logging.getLogger("pymech")
    for h in list(lg.handlers):
        lg.removeHandler(h)
    lg.addHandler(logging.NullHandler())
    lg.propagate = False
    lg.setLevel(logging.ERROR)


def process_settings(names, ctx):
    """What the rest of the program may have set up: pymech's debug messages, numpy's way of printing."""
    if "debug" in names:
        import logging

        class Format(logging.Handler):
            def emit(self, record):
                ctx.count("log_records")
                record.getMessage()

        lg = logging.getLogger("pymech")
        lg.handlers[:] = [Format()]
        lg.setLevel(logging.DEBUG)
        ctx.count("with_debug_log")
    if "print" in names:
        import numpy as np

        np.set_printoptions(precision=2, threshold=4, edgeitems=1, suppress=True)
        ctx.count("with_print_options")


def program_state():
    """What belongs to the whole program: a call may use it, but has to leave it as it was."""
    import decimal
    import locale
    import logging
    import random
    import signal
    import socket
    import threading

    import numpy as np

    lg = logging.getLogger("pymech")
    mask = os.umask(0o22)
    os.umask(mask)
    rng = np.random.get_state()
    return {
        "working directory": os.getcwd(), "umask": mask, "numpy error handling": np.geterr(),
        "numpy print options": {k: v for k, v in np.get_printoptions().items()},
        "logging": (lg.level, list(lg.handlers), lg.propagate, lg.disabled, logging.root.level,
                    list(logging.root.handlers), logging.root.manager.disable),
        "numpy random state": (rng[0], rng[1].tobytes(), rng[2:]), "random state": random.getstate(),
        "signal handlers": tuple(signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM)),
        "running alarm": signal.getitimer(signal.ITIMER_REAL)[1], "garbage collection": gc.isenabled(),
        "recursion limit": sys.getrecursionlimit(), "threads": threading.active_count(),
        "module path": list(sys.path), "locale": locale.setlocale(locale.LC_ALL), "standard output": (sys.stdout, sys.stderr),
        "environment": dict(os.environ), "decimal precision": decimal.getcontext().prec,
        "socket timeout": socket.getdefaulttimeout(),
    }


def changed_state(before):
    now = program_state()
    for k, v in before.items():
        if v != now[k]:
            return f"{k}: {str(v)[:120]} became {str(now[k])[:120]}"
    return None


def import_sut():
    """Import pymech from the repository's working tree (and from nowhere else)."""
    import types

    sys.dont_write_bytecode = True
    from . import sched

    sched.install_locks()
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    try:
        import importlib.util

        if not os.path.exists(os.path.join(PYMECH, "_version.py")):
            mod = types.ModuleType("pymech._version")
            mod.__version__ = "0"
            sys.modules["pymech._version"] = mod
    except Exception:
        pass
    import pymech  # noqa: F401
    import pymech.core  # noqa: F401
    import pymech.dataset  # noqa: F401
    import pymech.meshtools  # noqa: F401
    import pymech.neksuite  # noqa: F401
    import pymech.neksuite.field  # noqa: F401
    import pymech.neksuite.map  # noqa: F401
    import pymech.neksuite.mesh  # noqa: F401
    import pymech.simsonsuite  # noqa: F401

    if not os.path.abspath(pymech.__file__).startswith(PYMECH):
        raise HarnessError(f"imported pymech from {pymech.__file__}, not from {PYMECH}")
    return pymech
