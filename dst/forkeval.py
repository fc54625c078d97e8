"""Evaluate something in a pristine copy of the simulated process."""

import os
import pickle
import traceback

import numpy as np

from . import gens
from .core import HarnessError, Violation, blame, call


def fork_eval(fn):
    """The value of fn(), computed in a forked child whose memory is thrown away afterwards."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException as e:
                told = blame(e)
                data = pickle.dumps(("unusable", told) if told else ("error", traceback.format_exc()[-3000:]))
            with os.fdopen(w, "wb", closefd=True) as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    parts = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        parts.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    if not parts:
        raise HarnessError("the baseline process died")
    kind, value = pickle.loads(b"".join(parts))
    if kind == "unusable":
        raise Violation("unusable", "a result cannot be used: " + value)
    if kind != "ok":
        raise HarnessError("the baseline failed: " + value)
    return value


def freeze(v):
    """A canonical, comparable picture of a result, an argument or a nest of them."""
    if hasattr(v, "elem") and hasattr(v, "elmap"):
        return ("mesh", gens.snapshot(v))
    if hasattr(v, "ccurv") and hasattr(v, "bcs"):
        return ("elem", tuple((k, freeze(getattr(v, k))) for k in gens.ELEM_ARRAYS), tuple(v.ccurv))
    if isinstance(v, np.ndarray):
        if v.dtype.names is not None or v.dtype.hasobject:
            return ("array", str(v.dtype), v.shape, repr(v.tolist()))
        return ("array", str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, np.generic):
        return ("scalar", type(v).__name__, v.tobytes() if not isinstance(v, np.str_) else str(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x) for x in v))
    if isinstance(v, dict):
        return ("dict", tuple(sorted((str(k), freeze(x)) for k, x in v.items())))
    if isinstance(v, float):
        return ("float", repr(v))
    if v is None or isinstance(v, (int, str, bytes, bool)):
        return (type(v).__name__, v)
    if callable(v):
        return ("callable",)
    if type(v).__name__ == "Header":
        return ("header", tuple((k, freeze(getattr(v, k))) for k in
                                ("wdsz", "orders", "nb_elems", "nb_elems_file", "time", "istep", "fid", "nb_files",
                                 "variables", "nb_pts_elem", "nb_dims", "nb_vars", "nb_bytes", "realtype")
                                if hasattr(v, k)))
    if type(v).__module__.startswith("xarray"):
        v = v.load()
        return ("dataset", tuple(sorted((str(k), tuple(map(str, a.dims)), freeze(np.asarray(a.values)))
                                        for k, a in {**dict(v.coords), **dict(v.data_vars)}.items())),
                repr(sorted((str(k), str(x)) for k, x in v.attrs.items())))
    return ("other", f"{type(v).__module__}.{type(v).__name__}")


def describe(a, b):
    """Where two frozen values differ."""
    if a == b:
        return None
    if a and b and a[0] == b[0] == "mesh":
        return gens.snap_diff(a[1], b[1])
    if a and b and a[0] == b[0] and a[0] in ("list", "tuple") and len(a[1]) == len(b[1]):
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            if x != y:
                return f"item {i}: {describe(x, y)}"
    if a and b and a[0] == b[0] == "array":
        if a[1:3] != b[1:3]:
            return f"array of {a[1:3]} became {b[1:3]}"
        return "array values differ"
    return f"{str(a)[:150]} became {str(b)[:150]}"


def outcome(fn):
    """("ok", picture of the value) or ("raised", exception type)."""
    o = call(fn)
    if o.ok:
        return ("ok", freeze(o.value))
    return ("raised", o.etype)
