"""Seam around random draws: np.random.default_rng hands out recording generators.

`install()` (before diff_diff is imported) replaces np.random.default_rng.  The
streams are exactly numpy's; while armed, every draw made directly by library
code is recorded with the kernel-call count at that moment, and a draw may be
overridden by a scripted value (`S.script`).
"""
import os
import sys

import numpy as np

from . import core, seam

LIB = os.path.join(core.REPO, "diff_diff") + os.sep
METHODS = ["choice", "permutation", "integers", "random", "standard_normal", "normal", "uniform", "shuffle", "binomial", "exponential", "permuted",
           "multinomial", "dirichlet", "beta", "gamma", "poisson"]


class State:
    armed = False
    draws = []       # (generator number, method, value, kernel count)
    gens = 0
    script = None    # callable(method, args, kwargs, value) -> legal replacement or None
    scripted = 0


S = State()


def reset():
    S.armed, S.draws, S.gens, S.script, S.scripted = False, [], 0, None, 0


class RecGen(np.random.Generator):
    pass


def _mk(name):
    base = getattr(np.random.Generator, name)

    def m(self, *a, **k):
        v = base(self, *a, **k)
        if S.armed and sys._getframe(1).f_code.co_filename.startswith(LIB):
            if S.script is not None:
                w = S.script(name, a, k, v)
                if w is not None:
                    v, S.scripted = w, S.scripted + 1
            S.draws.append((getattr(self, "_n", 0), name, v.copy() if isinstance(v, np.ndarray) else v, seam.S.count))
        return v
    m.__name__ = name
    return m


for _n in METHODS:
    setattr(RecGen, _n, _mk(_n))

_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    assert not any(m == "diff_diff" or m.startswith("diff_diff.") for m in sys.modules)
    real = np.random.default_rng

    def default_rng(seed=None):
        if isinstance(seed, np.random.Generator):
            return seed
        g = real(seed)
        if not sys._getframe(1).f_code.co_filename.startswith(LIB):
            return g
        r = RecGen(g.bit_generator)
        S.gens += 1
        r._n = S.gens
        return r
    np.random.default_rng = default_rng


def extreme(mode, every, shift=0):
    """Script: unlikely but legal draws.  Every `every`-th draw becomes extreme."""
    st = {"n": 0}

    def pool(a):
        return np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)

    def script(name, a, k, v):
        st["n"] += 1
        if (st["n"] + shift) % every:
            return None
        if name == "permutation" and isinstance(v, np.ndarray):
            p = pool(a[0])
            return p.copy() if mode == "ident" else p[::-1].copy() if mode == "const" else None
        if name != "choice" or not isinstance(v, np.ndarray):
            return None
        p = pool(a[0])
        if k.get("replace", a[2] if len(a) > 2 else True) is False:
            return p[:v.size].copy() if mode == "ident" else p[len(p) - v.size:].copy() if mode == "const" else None
        if mode == "hadamard":
            return None
        n = v.shape[-1]
        if mode == "ident":
            row = p[np.arange(n) % len(p)]
        elif mode == "const":
            row = np.repeat(p[(st["n"] + shift) % len(p)], n)
        else:                                     # "few": two values only
            row = p[np.where(np.arange(n) % 3, st["n"] % len(p), (st["n"] * 7 + 1) % len(p))]
        out = np.array(v, copy=True)
        out[...] = row.astype(out.dtype)
        return out

    def had(name, a, k, v):
        from scipy.linalg import hadamard
        p = pool(a[0])
        if name == "choice" and isinstance(v, np.ndarray) and v.ndim == 2 and len(p) == 2 and k.get("p") is None:
            B, n = v.shape
            if B & (B - 1) == 0 and n < B:
                return hadamard(B)[:, 1:n + 1].astype(float)
        return None
    return had if mode == "hadamard" else script


def last_generator():
    """Draws of the generator created last."""
    return [d for d in S.draws if d[0] == S.gens]
