"""Seam around the numerical kernels the library calls (LAPACK, optimisers).

`install()` replaces the public entry points of numpy.linalg, scipy.linalg and
scipy.optimize by counting wrappers *before* diff_diff is imported, so both
`np.linalg.solve(...)` and `from scipy.linalg import lstsq` reach them.  Only
calls made directly by diff_diff code are counted or faulted; off by default.
"""
import collections
import functools
import os
import sys

import numpy as np

from . import core

LIB = os.path.join(core.REPO, "diff_diff") + os.sep

LINALG = ["solve", "inv", "pinv", "lstsq", "svd", "qr", "eigh", "eig", "cholesky", "matrix_rank", "det", "slogdet"]
SLINALG = ["lstsq", "qr", "solve", "inv", "pinv", "svd", "cho_factor", "cho_solve", "solve_triangular", "eigh", "cholesky"]
SOPT = ["minimize", "linprog", "brentq", "minimize_scalar", "bisect", "root_scalar", "nnls", "lsq_linear"]


class State:
    armed = False
    plan = None          # callable(name, k, k_name) -> kind or None
    count = 0
    by_name = collections.Counter()
    fired = []
    names = []           # trace of call names while recording
    callers = set()      # (file, qualified name) of the library functions that made a kernel call
    hook = None          # called on every library kernel call (yield points etc.)


S = State()


def reset():
    S.armed, S.plan, S.count = False, None, 0
    S.by_name = collections.Counter()
    S.fired, S.names, S.callers = [], [], set()


def _from_lib(depth=2):
    return sys._getframe(depth).f_code.co_filename.startswith(LIB)


def _nan_like(r):
    if isinstance(r, np.ndarray):
        return np.full_like(r, np.nan, dtype=float) if r.dtype.kind == "f" else r
    if isinstance(r, tuple):
        t = [_nan_like(x) for x in r]
        return type(r)(*t) if hasattr(r, "_fields") else tuple(t)
    if isinstance(r, float):
        return float("nan")
    return r


class NonConverged(dict):
    __getattr__ = dict.get


def _apply(kind, name, fn, a, k):
    S.fired.append((kind, name, S.count))
    if kind == "LinAlgError":
        raise np.linalg.LinAlgError("Singular matrix" if "svd" not in name else "SVD did not converge")
    if kind == "LinAlgError2":
        raise np.linalg.LinAlgError("illegal value in 4-th argument of internal None" if "svd" not in name else "SVD did not converge in Linear Least Squares")
    if kind == "ValueError":
        raise ValueError("array must not contain infs or NaNs")
    if kind == "MemoryError":
        raise MemoryError("Unable to allocate array")
    if kind == "RuntimeError":
        raise RuntimeError("Failed to converge")
    if kind == "nan":
        return _nan_like(fn(*a, **k))
    if kind in ("noise", "huge"):
        rng = np.random.Generator(np.random.PCG64(S.count))

        def shake(x):
            if isinstance(x, np.ndarray) and x.dtype.kind == "f":
                return x * (1 + 0.5 * rng.standard_normal(x.shape)) if kind == "noise" else x * 1e9
            if isinstance(x, tuple):
                t = [shake(v) for v in x]
                return type(x)(*t) if hasattr(x, "_fields") else tuple(t)
            return x
        return shake(fn(*a, **k))
    if kind == "noconv":
        r = fn(*a, **k)
        r["success"] = False
        r["message"] = "simulated: iteration limit reached"
        if "status" in r:
            r["status"] = 4
        if "x" in r and name == "linprog":
            r["x"] = None
            r["fun"] = None
        return r
    raise core.HarnessError(kind)


def _wrap(name, fn):
    @functools.wraps(fn)
    def w(*a, **k):
        if not S.armed or not _from_lib():
            return fn(*a, **k)
        S.count += 1
        S.by_name[name] += 1
        S.names.append(name)
        c = sys._getframe(1).f_code
        S.callers.add((c.co_filename, c.co_qualname))
        if S.plan is not None:
            kind = S.plan(name, S.count, S.by_name[name])
            if kind is not None:
                return _apply(kind, name, fn, a, k)
        return fn(*a, **k)
    return w


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    import scipy.linalg
    import scipy.optimize
    assert not any(m == "diff_diff" or m.startswith("diff_diff.") for m in sys.modules), "seam must precede the library"
    for mod, names, tag in ((np.linalg, LINALG, "np."), (scipy.linalg, SLINALG, "sp."), (scipy.optimize, SOPT, "")):
        for n in names:
            if hasattr(mod, n):
                setattr(mod, n, _wrap(tag + n, getattr(mod, n)))


def kinds_for(name):
    if name in ("minimize", "linprog", "minimize_scalar"):
        return ["noconv", "noconv", "ValueError"]
    if name in ("brentq", "bisect", "root_scalar"):
        return ["RuntimeError", "ValueError"]
    return ["LinAlgError", "LinAlgError2", "LinAlgError", "LinAlgError2", "ValueError", "nan"]
