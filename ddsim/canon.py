"""Canonical, comparable form of whatever the library returns (public surface only)."""
import dataclasses
import hashlib
import math
import re

import numpy as np
import pandas as pd


def canon(x, depth=0):
    if depth > 12:
        return ["deep"]
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, complex):
        return ["c", x.real, x.imag]
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fiub":
            return ["nd", list(x.shape), [canon(v, depth + 1) for v in x.ravel().tolist()]]
        return ["nd", list(x.shape), [canon(v, depth + 1) for v in x.ravel()]]
    if isinstance(x, pd.DataFrame):
        return ["df", [str(c) for c in x.columns], [[canon(v, depth + 1) for v in x[c].tolist()] if x.columns.is_unique
                                                     else [] for c in x.columns], [str(v) for v in x.index]]
    if isinstance(x, (pd.Series, pd.Index)):
        return ["sr", [canon(v, depth + 1) for v in x.tolist()]]
    if isinstance(x, dict):
        items = [[canon(k, depth + 1), canon(v, depth + 1)] for k, v in x.items()]
        items.sort(key=lambda kv: repr(kv[0]))
        return ["map", items]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__[:1]] + [canon(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted((canon(v, depth + 1) for v in x), key=repr)
    if isinstance(x, (pd.Timestamp, pd.Period)):
        return str(x)
    if isinstance(x, type):
        return "type:" + x.__name__
    if isinstance(x, BaseException):
        return ["exc", type(x).__name__]
    if dataclasses.is_dataclass(x) or hasattr(x, "__dict__"):
        mod = type(x).__module__
        if not mod.startswith("diff_diff") and not mod.startswith("ddsim"):
            return "obj:" + type(x).__name__
        d = {k: v for k, v in vars(x).items() if not k.startswith("_")}
        return ["obj", type(x).__name__, canon(d, depth + 1)]
    return "obj:" + type(x).__name__


def digest(c):
    return hashlib.sha256(repr(c).encode()).hexdigest()[:16]


_NUM = re.compile(r"-?\d+\.?\d*(?:[eE][+-]?\d+)?")


def _same_text(a, b, rtol):
    """Rendered text: the same words, and numbers equal within rtol (or the last printed digit, for loose rtol)."""
    if _NUM.sub("#", a).split() != _NUM.sub("#", b).split():
        return False
    for x, y in zip(_NUM.findall(a), _NUM.findall(b)):
        if x == y:
            continue
        u, v = float(x), float(y)
        tol = rtol * max(abs(u), abs(v))
        if rtol >= 1e-7 and "e" not in x.lower() and "." in x:
            tol = max(tol, 1.01 * 10.0 ** -len(x.split(".")[1])) if len(x.split(".")[1]) <= 6 else tol
        if abs(u - v) > tol:
            return False
    return True


def diff(a, b, rtol=1e-9, atol=1e-12, path=""):
    """First difference between two canonical values, or None."""
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return None if a == b else "%s: %r != %r" % (path, a, b)
        if math.isnan(a) or math.isnan(b):
            return None if math.isnan(a) and math.isnan(b) else "%s: %r != %r" % (path, a, b)
        if a == b:
            return None
        if math.isinf(a) or math.isinf(b):
            return "%s: %r != %r" % (path, a, b)
        return None if abs(a - b) <= atol + rtol * max(abs(a), abs(b)) else "%s: %r != %r" % (path, a, b)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: length %d != %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            p = path + "." + str(x[0]) if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) and path.endswith("map") else path
            if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in ("map", "obj", "df", "nd", "sr", "l", "t"):
                p = path + "/" + x[0]
            elif p == path:
                p = "%s[%d]" % (path, i)
            d = diff(x, y, rtol, atol, p)
            if d:
                return d
        return None
    if isinstance(a, str) and isinstance(b, str) and a != b and len(a) > 40:
        return None if _same_text(a, b, rtol) else "%s: text differs" % path
    return None if a == b and type(a) is type(b) else "%s: %r != %r" % (path, a, b)


def finite_leaves(c, path="", out=None):
    """{path: number} for every numeric leaf."""
    if out is None:
        out = {}
    if isinstance(c, bool) or c is None or isinstance(c, str):
        return out
    if isinstance(c, (int, float)):
        out[path] = c
    elif isinstance(c, list):
        for i, v in enumerate(c):
            if isinstance(v, list) and len(v) == 2 and isinstance(v[0], str):
                finite_leaves(v[1], path + "." + v[0], out)
            else:
                finite_leaves(v, "%s[%d]" % (path, i), out)
    return out
