"""The simulated file layer.

Files live in the scenario's scratch directory as real files, but every file object that the code
under test opens there is built by us: the usual BufferedReader/BufferedWriter/TextIOWrapper stack
of the standard library (real code) on top of a raw file whose every operation we decide.  A fault
plan is plain data:

  bufsize   size of the buffered layer (any size is legal)
  frag      {"seed", "max"}: reads and writes transfer 1..max bytes at a time
  faults    list of
    {"kind": "enospc", "at": n}        the device holds n bytes of this file, then is full
    {"kind": "eio_w",  "at": n}        the write that would cover byte n fails (one shot: "once")
    {"kind": "eio_r",  "at": n}        the read that would cover byte n fails
    {"kind": "close"}                  close() of the file descriptor reports an I/O error
    {"kind": "open", "err": errno}     the file cannot be opened
    {"kind": "kill", "op": k}          the process dies just before raw operation k
    {"kind": "intr", "op": k, "exc": name}   an asynchronous exception at raw operation k
    {"kind": "grow", "op": k, "to": n} before raw operation k the writer of this file has got to n
"""

import builtins
import errno
import io
import os
import random
import resource
import signal
import weakref

from .core import HarnessError, SimKill, StepLimit, injected

_real_open = builtins.open
_EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "SystemExit": SystemExit,
}

MAX_RAW_OPS = 400000


def _injected(err, text, path):
    return injected(OSError, err, text, path)


class SimFileIO(io.FileIO):
    """The raw file: partial transfers, errors, death."""

    def __init__(self, fs, path, mode):
        self._fs = None  # not yet open: close() in the destructor must be harmless
        super().__init__(path, mode)
        self._fs = fs
        self._path = os.fspath(path)

    # -- helpers ---------------------------------------------------------
    def _limit(self, n):
        fs = self._fs
        if n > 1 and fs.rng is not None:
            m = fs.rng.randint(1, fs.frag_max)
            if m < n:
                fs.ctx.fault("fragmented")
                return m
        return n

    # -- reading ---------------------------------------------------------
    def readinto(self, b):
        fs = self._fs
        fs.step("r", self._path)
        n = self._limit(len(b))
        at = fs.fault_offset("eio_r", self._path)
        if at is not None and n > 0:
            pos = super().tell()
            if pos <= at < pos + n:
                if pos < at and not fs.one("eio_r").get("hard"):
                    n = at - pos  # what lies before the bad byte can still be read
                else:
                    fs.fire("eio_r")
                    raise _injected(errno.EIO, "simulated I/O error", self._path)
        got = super().readinto(memoryview(b)[:n])
        fs.ctx.log("read", os.path.basename(self._path), got)
        return got

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        parts = []
        while True:
            buf = bytearray(65536)
            n = self.readinto(buf)
            if not n:
                return b"".join(parts)
            parts.append(bytes(buf[:n]))

    # -- writing ---------------------------------------------------------
    def write(self, b):
        fs = self._fs
        view = memoryview(b).cast("B")
        if fs.dead:
            return len(view)
        fs.step("w", self._path)
        n = self._limit(len(view))
        pos = super().tell()
        at = fs.fault_offset("enospc", self._path)
        if at is not None and pos + n > at:
            n = at - pos
            if n <= 0:
                fs.fire("enospc")
                raise _injected(errno.ENOSPC, "simulated full disk", self._path)
        at = fs.fault_offset("eio_w", self._path)
        if at is not None and pos <= at < pos + n:
            n = at - pos
            if n <= 0:
                fs.fire("eio_w")
                if fs.one("eio_w").get("once"):
                    fs.disarm("eio_w")
                raise _injected(errno.EIO, "simulated I/O error", self._path)
        done = super().write(view[:n]) if n else 0
        fs.ctx.log("write", os.path.basename(self._path), done)
        return done

    def truncate(self, size=None):
        if self._fs.dead:
            return 0
        self._fs.step("t", self._path)
        return super().truncate(size)

    def seek(self, pos, whence=0):
        if self._fs is not None and not self._fs.dead:
            self._fs.step("s", self._path)
        return super().seek(pos, whence)

    # -- closing ---------------------------------------------------------
    def close(self):
        if self.closed:
            return
        super().close()
        fs = self._fs
        if fs is None:
            return
        fs.ctx.log("close", os.path.basename(self._path))
        if not fs.dead and fs.active and self.writable_mode and fs.armed("close", self._path):
            fs.fire("close")
            fs.disarm("close")
            raise _injected(errno.EIO, "simulated I/O error in close", self._path)

    writable_mode = False


class SimFS:
    """Intercepts open() for files under the scratch directory."""

    def __init__(self, ctx, plan=None, only=None):
        self.ctx = ctx
        self.root = os.path.realpath(ctx.scratch) + os.sep
        self.only = only  # restrict the faults to this path
        self.plan = {}
        self.rng = None
        self.frag_max = 1
        self.faults = []
        self.fired = []
        self.opens = 0
        self.ops = 0
        self.dead = False
        self.active = False
        self.handles = []
        self.hook = None  # called before every raw operation (scheduler)
        self.grow_data = None
        self.set_plan(plan or {})

    # -- plan ------------------------------------------------------------
    def set_plan(self, plan, grow_data=None):
        self.plan = dict(plan)
        frag = plan.get("frag")
        self.rng = random.Random(frag["seed"]) if frag else None
        self.frag_max = max(1, int(frag["max"])) if frag else 1
        self.faults = [dict(f) for f in plan.get("faults", ())]
        self.fired = []
        self.ops = 0
        self.opens = 0
        self.dead = False
        self.grow_data = grow_data

    def clear(self):
        """The faults stop."""
        self.set_plan({})

    def _mine(self, path):
        return self.only is None or os.path.realpath(path) == os.path.realpath(self.only)

    def one(self, kind):
        for f in self.faults:
            if f["kind"] == kind:
                return f
        return {}

    def armed(self, kind, path):
        return self.active and self._mine(path) and bool(self.one(kind))

    def fault_offset(self, kind, path):
        if not self.armed(kind, path):
            return None
        return self.one(kind)["at"]

    def disarm(self, kind):
        self.faults = [f for f in self.faults if f["kind"] != kind]

    def fire(self, kind):
        self.fired.append(kind)
        self.ctx.fault(kind)
        self.ctx.log("FAULT", kind)

    # -- time ------------------------------------------------------------
    def step(self, what, path):
        if not self.active:
            return
        if self.hook is not None:
            self.hook(what)
        k = self.ops
        self.ops += 1
        self.ctx.steps += 1
        if self.ops > MAX_RAW_OPS:
            raise StepLimit(f"more than {MAX_RAW_OPS} raw file operations in one call")
        if not self.faults:
            return
        for f in list(self.faults):
            if f.get("op") != k or not self._mine(path):
                continue
            kind = f["kind"]
            if kind == "grow":
                data = self.grow_data[: f["to"]]
                have = os.path.getsize(path)
                if len(data) > have:
                    fd = os.open(path, os.O_WRONLY | os.O_APPEND)
                    try:
                        os.write(fd, data[have:])
                    finally:
                        os.close(fd)
                    self.fire("grow")
            elif kind == "kill":
                self.fire("kill")
                self.dead = True
                raise injected(SimKill, "simulated death")
            elif kind == "intr":
                self.fire("intr")
                raise injected(_EXC[f.get("exc", "KeyboardInterrupt")], "simulated interrupt")

    # -- the seam --------------------------------------------------------
    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
              closefd=True, opener=None):
        if isinstance(file, int) or not self.active:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.path.realpath(os.fspath(file))
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith(self.root):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opens += 1
        self.ctx.count("opens")
        self.step("o", path)
        if self.armed("open", path):
            e = self.one("open").get("err", errno.EACCES)
            self.fire("open")
            if self.one("open").get("once"):
                self.disarm("open")
            raise _injected(e, os.strerror(e), path)
        binary = "b" in mode
        rawmode = mode.replace("b", "").replace("t", "")
        raw = SimFileIO(self, path, rawmode)
        raw.writable_mode = any(c in mode for c in "wax+")
        self.handles.append(weakref.ref(raw))
        self.ctx.log("open", os.path.basename(path), mode)
        if buffering == 0:
            if not binary:
                raw.close()
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else int(self.plan.get("bufsize") or io.DEFAULT_BUFFER_SIZE)
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif raw.writable_mode:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text

    def __enter__(self):
        if builtins.open is not _real_open:
            raise HarnessError("nested simulated file systems")
        self.active = True
        builtins.open = self._open
        io.open = self._open
        # The size limit of the operating system backs up the simulated full disk for code that
        # writes behind the file object's back (numpy's tofile writes through a C stream).
        self._limit = None
        at = [f["at"] for f in self.faults if f["kind"] == "enospc"]
        if at:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            self._limit = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (at[0], self._limit[1]))
        return self

    def __exit__(self, *a):
        if self._limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, self._limit)
        builtins.open = _real_open
        io.open = _real_open
        self.active = False
        return False

    # -- observation -----------------------------------------------------
    def open_handles(self):
        alive = [h() for h in self.handles]
        return [h._path for h in alive if h is not None and not h.closed]


def put(path, data):
    with _real_open(path, "wb") as f:
        f.write(data)


def get(path):
    try:
        with _real_open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None
