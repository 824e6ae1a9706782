"""Fingerprints of everything handed to the library by the catalogue ops.

Ops call the library through C(fn, *args, **kwargs).  While G.on is set, every
mutable argument is fingerprinted before the call; `modified()` later names the
ones whose content changed - after success, failure or interruption alike.
"""
import hashlib
import threading

import numpy as np
import pandas as pd


class G:
    on = False
    entries = []        # [owner name, arg name, object, fingerprint]


def reset(on=True):
    G.on = on
    G.entries = []


def _b(x):
    return hashlib.sha256(x).hexdigest()[:16]


def fp(o, depth=0, seen=None):
    seen = seen or ()
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes, type)):
        return repr(o)
    if id(o) in seen or depth > 8:
        return "..."
    seen = seen + (id(o),)
    if isinstance(o, pd.DataFrame):
        return ("df", tuple(map(repr, o.columns)), tuple(str(d) for d in o.dtypes), type(o.index).__name__,
                _b(repr(o.index.tolist()).encode()), str(o.index.name), str(o.columns.name),
                tuple(fp(o.iloc[:, i].to_numpy(), depth + 1) for i in range(o.shape[1])),
                repr(sorted(o.attrs.items(), key=repr)), o.flags.allows_duplicate_labels)
    if isinstance(o, (pd.Series, pd.Index)):
        return ("sr", str(o.dtype), fp(o.to_numpy(), depth + 1), repr(o.name))
    if isinstance(o, np.ndarray):
        return ("nd", o.shape, str(o.dtype), _b(np.ascontiguousarray(o).tobytes()) if o.dtype.kind in "fiubM"
                else _b(repr(o.tolist()).encode()), o.flags.writeable)
    if isinstance(o, np.generic):
        return repr(o)
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), fp(v, depth + 1, seen)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(fp(v, depth + 1, seen) for v in o)
    if isinstance(o, (set, frozenset)):
        return ("set",) + tuple(sorted(fp(v, depth + 1, seen) for v in o))
    if type(o).__module__.startswith("diff_diff"):
        if hasattr(o, "get_params"):
            return ("est", type(o).__name__, fp(o.get_params(), depth + 1, seen))
        if hasattr(o, "__dict__"):
            return ("obj", type(o).__name__, tuple((k, fp(v, depth + 1, seen)) for k, v in sorted(vars(o).items())))
    return "opaque:" + type(o).__name__


MUTABLE = (pd.DataFrame, pd.Series, np.ndarray, dict, list, set)


def _mutable(v):
    return isinstance(v, MUTABLE) or type(v).__module__.startswith("diff_diff")


L = threading.local()      # .flip: lists are handed over in reverse order


def _flip(v):
    return v[::-1] if isinstance(v, list) and len(v) > 1 else v


def C(_fn, *args, **kwargs):
    if getattr(L, "flip", False):
        args = tuple(_flip(v) for v in args)
        kwargs = {k: _flip(v) for k, v in kwargs.items()}
    if G.on:
        name = getattr(_fn, "__qualname__", str(_fn))
        for i, v in enumerate(args):
            if _mutable(v):
                G.entries.append([name, "argument %d" % i, v, fp(v)])
        for k, v in kwargs.items():
            if _mutable(v):
                G.entries.append([name, "argument %r" % k, v, fp(v)])
    return _fn(*args, **kwargs)


def modified():
    out = []
    for name, arg, obj, f in G.entries:
        if fp(obj) != f:
            out.append("%s: %s (%s) was modified" % (name, arg, type(obj).__name__))
    return out
