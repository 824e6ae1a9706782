"""Snapshot of process-global state a well-behaved library must leave alone."""
import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import warnings

import numpy as np
import pandas as pd


def _h(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]


def _pd_options():
    out = {}
    try:
        from pandas._config import config as c
        for k in sorted(c._registered_options):
            try:
                out[k] = repr(c.get_option(k))
            except Exception:
                pass
    except Exception:
        pass
    return out


def snapshot():
    s = {}
    st = np.random.get_state()
    s["numpy global RNG"] = _h((st[0], st[1].tolist(), st[2], st[3], st[4]))
    s["random global RNG"] = _h(random.getstate())
    s["warnings.filters"] = _h([(a, getattr(m, "pattern", m), c.__name__, getattr(mo, "pattern", mo), ln)
                                for a, m, c, mo, ln in warnings.filters])
    s["warnings.showwarning"] = id(warnings.showwarning)
    s["numpy error state"] = repr(sorted(np.geterr().items())) + repr(np.geterrcall())
    s["numpy print options"] = repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items()))
    s["pandas options"] = _h(sorted(_pd_options().items()))
    s["os.environ"] = _h(sorted(os.environ.items()))
    s["working directory"] = os.getcwd()
    s["locale"] = repr(locale.setlocale(locale.LC_ALL))
    s["decimal context"] = repr(decimal.getcontext())
    s["sys.path"] = _h(sys.path)
    s["stdout/stderr"] = (id(sys.stdout), id(sys.stderr))
    s["recursion limit"] = sys.getrecursionlimit()
    s["switch interval"] = sys.getswitchinterval()
    s["gc"] = (gc.isenabled(), gc.get_threshold())
    s["logging root"] = (logging.root.level, len(logging.root.handlers), logging.root.disabled)
    s["signal handlers"] = _h([repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)])
    s["excepthook"] = (id(sys.excepthook), id(threading.excepthook))
    s["trace/profile hooks"] = (sys.gettrace() is None, sys.getprofile() is None)
    for n, lg in logging.root.manager.loggerDict.items():       # loggers made later are not a change
        if isinstance(lg, logging.Logger) and n.split(".")[0] in ("py", "diff_diff", "numpy", "pandas", "scipy", "matplotlib", "urllib3"):
            s["logger " + n] = (lg.level, len(lg.handlers), lg.disabled, lg.propagate)
    s["logging capture, level"] = (logging._warnings_showwarning is None, logging.root.manager.disable)
    s["socket default timeout"] = socket.getdefaulttimeout()
    s["running threads"] = threading.active_count()
    s["os.umask"] = _umask()
    u = sys.modules.get("urllib.request")
    if u is not None:
        s["urllib opener"] = id(u._opener) if u._opener is not None else None
    t = sys.modules.get("tempfile")
    if t is not None:
        s["tempfile.tempdir"] = t.tempdir
    b = sys.modules.get("numpy")
    s["numpy buffer size"] = b.getbufsize()
    s["working directory content"] = _h(sorted(os.listdir(".")))
    s["diff_diff module settings"] = _settings()
    if "matplotlib" in sys.modules:
        import matplotlib
        s["matplotlib rcParams"] = _h(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items() if k != "backend"))
        s["matplotlib backend"] = matplotlib.get_backend() if "matplotlib.pyplot" in sys.modules else None
        if "matplotlib.pyplot" in sys.modules:
            s["open pyplot figures"] = repr(sys.modules["matplotlib.pyplot"].get_fignums())
    return s


def _umask():
    with open("/proc/self/status") as f:
        for ln in f:
            if ln.startswith("Umask:"):
                return ln.split()[1]


def _plain(v, depth=0):
    """Text of a setting, or None for what may legitimately be filled in lazily."""
    if isinstance(v, (bool, int, float, str)):
        return repr(v)
    if depth < 4 and isinstance(v, (tuple, list)) and len(v):
        t = [_plain(x, depth + 1) for x in v]
        return None if None in t else repr(t)
    if depth < 4 and isinstance(v, dict) and len(v):
        t = [(repr(k), _plain(x, depth + 1)) for k, x in v.items()]
        return None if None in [x for _, x in t] else repr(t)
    return None


_SETTINGS = None


def _settings():
    """Module-level constants, class-level constants and mutable default arguments of diff_diff
    that hold plain values when the process starts."""
    global _SETTINGS
    import types
    if _SETTINGS is None:
        if "diff_diff" not in sys.modules:
            return None
        out, seen = [], set()

        def fn(f, where):
            f = getattr(f, "__func__", f)
            if not isinstance(f, types.FunctionType) or id(f) in seen:
                return
            seen.add(id(f))
            for i, v in enumerate(f.__defaults__ or ()):
                if isinstance(v, (list, dict, set)):
                    out.append((where + " default", lambda v=v: repr(v)))
            for k, v in (f.__kwdefaults__ or {}).items():
                if isinstance(v, (list, dict, set)):
                    out.append((where + " default " + k, lambda v=v: repr(v)))
        for name, m in sorted(sys.modules.items()):
            if not (name == "diff_diff" or name.startswith("diff_diff.")) or m is None:
                continue
            for k, v in sorted(vars(m).items()):
                if k.startswith("__"):
                    continue
                if k.isupper() and _plain(v) is not None:
                    out.append((name + "." + k, lambda m=m, k=k: _plain(getattr(m, k, None))))
                elif isinstance(v, type) and v.__module__ == name:
                    for kk, vv in sorted(vars(v).items()):
                        fn(vv, name + "." + k + "." + kk)
                        if not kk.startswith("__") and (kk.isupper() and _plain(vv) is not None or isinstance(vv, (bool, int, float, str))):
                            out.append(("%s.%s.%s" % (name, k, kk), lambda v=v, kk=kk: _plain(vars(v).get(kk))))
                else:
                    fn(v, name + "." + k)
        _SETTINGS = out
    return _h([(k, f()) for k, f in _SETTINGS])


def quick():
    """A cheap partial fingerprint of the same state, to be taken thousands of times per call."""
    st = np.random.get_state()
    f = warnings.filters
    out = [st[2], int(st[1][0]), st[3], random.getstate()[1][-1], id(f), len(f), id(f[0]) if f else 0, id(warnings.showwarning),
           tuple(np.geterr().values()), id(np.geterrcall()), np.get_printoptions()["precision"], len(os.environ), id(sys.stdout), id(sys.stderr),
           gc.isenabled(), len(sys.path), sys.getrecursionlimit(), decimal.getcontext().prec]
    if "matplotlib" in sys.modules:
        out.append(hash(tuple(map(id, dict.values(sys.modules["matplotlib"].rcParams)))))
    return out


def frame_quick(df):
    """Cheap fingerprint of a frame: labels and the bytes of its numeric blocks."""
    if not isinstance(df, pd.DataFrame):
        return None
    return [tuple(df.columns), id(df.index), len(df)] + [hash(b.values.tobytes()) if isinstance(b.values, np.ndarray) and b.values.dtype.kind in "fiub" else id(b.values)
                                                          for b in df._mgr.blocks]


def figure_fp(fig):
    """What a figure shows."""
    out = [fig.get_size_inches().tolist(), fig.get_tight_layout(), repr(fig._suptitle), len(fig.axes)]
    for ax in fig.axes:
        out += [ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), repr(ax.get_legend()), ax.get_position().bounds, ax.get_xlim(), ax.get_ylim(),
                len(ax.get_children()), [ln.get_xydata().tolist() for ln in ax.get_lines()]]
    return repr(out)


def changed(a, b):
    return [k for k in a if a[k] != b.get(k)]


class Guarded:
    """A caller's object with a fingerprint of its content."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name
        self.fp = fingerprint(obj)

    def changed(self):
        return fingerprint(self.obj) != self.fp


def fingerprint(o):
    if isinstance(o, pd.DataFrame):
        return ("df", tuple(map(str, o.columns)), tuple(str(d) for d in o.dtypes), type(o.index).__name__, tuple(o.index.tolist()),
                str(o.index.name), hashlib.sha256(pd.util.hash_pandas_object(o, index=False).values.tobytes()).hexdigest(),
                repr(sorted(o.attrs.items())), o.flags.allows_duplicate_labels)
    if isinstance(o, np.ndarray):
        return ("nd", o.shape, str(o.dtype), o.tobytes() if o.dtype.kind in "fiub" else repr(o.tolist()), o.flags.writeable)
    return repr(o)


class ModuleState:
    """Fingerprint of what diff_diff keeps between calls: module variables, class attributes,
    mutable default arguments, cached functions."""

    def __init__(self):
        import types
        self.spaces, self.caches = [], []
        seen = set()

        def visit(o):
            if id(o) in seen or not getattr(o, "__module__", "").startswith("diff_diff"):
                return
            seen.add(id(o))
            if isinstance(o, type):
                self.spaces.append(vars(o))
                for v in list(vars(o).values()):
                    visit(getattr(v, "__func__", v))
            elif isinstance(o, types.FunctionType):
                for v in list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values()):
                    if isinstance(v, (dict, list, set, np.ndarray)):
                        self.spaces.append({"default": v})
                if o.__dict__:
                    self.spaces.append(o.__dict__)
            elif hasattr(o, "cache_info"):
                self.caches.append(o)
        for name, m in sorted(sys.modules.items()):
            if name == "diff_diff" or name.startswith("diff_diff."):
                self.spaces.append(vars(m))
                for v in list(vars(m).values()):
                    if hasattr(v, "__module__") and not isinstance(v, types.ModuleType):
                        visit(v)
        skip = (types.FunctionType, types.ModuleType, type, str, bytes, property, staticmethod, classmethod, types.MappingProxyType)
        self.plain = []
        for sp in self.spaces:
            for k, v in list(sp.items()):
                if not k.startswith("__") and not isinstance(v, skip) and not hasattr(v, "__origin__") and type(v).__module__ != "typing":
                    self.plain.append((sp, k))

    @staticmethod
    def val(v):
        if isinstance(v, np.ndarray):
            return hash(v.tobytes()) if v.dtype.kind in "fiub" else id(v)
        if isinstance(v, dict):
            return tuple((id(k), id(x), hash(x.tobytes()) if isinstance(x, np.ndarray) and x.dtype.kind in "fiub" else len(x) if isinstance(x, (list, dict, set)) else 0) for k, x in list(v.items())[:50])
        if isinstance(v, (list, set)):
            return tuple((id(x), len(x) if isinstance(x, (list, dict, set)) else 0) for x in list(v)[:50])
        if hasattr(v, "__dict__"):
            return id(v), tuple(map(id, vars(v).values()))
        return id(v)

    def fp(self):
        return [self.val(sp.get(k)) for sp, k in self.plain], [len(sp) - ("__warningregistry__" in sp) for sp in self.spaces], [c.cache_info() for c in self.caches]
