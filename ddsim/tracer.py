"""Line events inside diff_diff code, via sys.monitoring local events.

Gives the simulator a step counter, arbitrary interruption points and thread
yield points without touching the code under test.
"""
import ast
import gc
import importlib
import os
import pkgutil
import sys
import types

from . import core

TOOL = 4
M = sys.monitoring
LIB = os.path.join(core.REPO, "diff_diff") + os.sep
_codes = None


class Injected(Exception):
    pass


class T:
    steps = 0
    handler = None
    on = False


def _all_codes():
    global _codes
    if _codes is not None:
        return _codes
    import diff_diff
    for m in pkgutil.iter_modules(diff_diff.__path__):
        if not m.name.startswith("_rust"):
            try:
                importlib.import_module("diff_diff." + m.name)
            except ImportError:
                pass
    seen = set()
    out = []

    def add(c):
        if id(c) in seen:
            return
        seen.add(id(c))
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(LIB):
            add(o.__code__)
    _codes = out
    return out


def _line(code, line):
    T.steps += 1
    h = T.handler
    if h is not None:
        h(code, line)


def start(handler=None):
    """Begin counting lines; handler(code, line) may raise or switch threads."""
    T.steps = 0
    T.handler = handler
    if not T.on:
        M.use_tool_id(TOOL, "ddsim")
        M.register_callback(TOOL, M.events.LINE, _line)
        for c in _all_codes():
            M.set_local_events(TOOL, c, M.events.LINE)
        T.on = True


_cleanup = {}


def _cleanup_lines(filename):
    """Lines where raising would only show a limit of the language: `with` headers
    (revisited while the block is being left) and the bodies of `finally` clauses."""
    if filename not in _cleanup:
        out = set()
        with open(filename) as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                out.update(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, ast.Try) and n.finalbody:
                out.update(range(n.finalbody[0].lineno, n.finalbody[-1].end_lineno + 1))
        _cleanup[filename] = out
    return _cleanup[filename]


def safe_point(depth=3):
    """May an asynchronous exception be raised here?  Not while any library frame is cleaning up."""
    f = sys._getframe(depth)
    first = True
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(LIB):
            # an outer frame that stands on a `with` header is entering or leaving the block
            if f.f_lineno in _cleanup_lines(fn):
                return False
        elif not first and "ddsim" in fn:
            break
        first = False
        f = f.f_back
    return True


class Firsts:
    """Handler that records the step at which each distinct source line first ran.

    With probes ({name: callable}) also the first steps at which something the call
    shares with the outside - process state, the estimator, the caller's frame -
    differs from what it was at the start: that is where an interruption hurts."""

    def __init__(self, probes=None, kept=None):
        self.kept = kept            # fingerprint of what the library keeps between calls
        self.last = kept() if kept else None
        self.writes = []            # steps right after it changed
        self.seen = set()
        self.steps = []
        self.dirty = {}
        self.probes = probes or {}
        self.base = {k: f() for k, f in self.probes.items()}

    def __call__(self, code, line):
        k = (id(code), line)
        if k not in self.seen:
            self.seen.add(k)
            self.steps.append(T.steps)
            if self.kept is not None:
                now = self.kept()
                if now != self.last:
                    self.last = now
                    self.writes.append(T.steps)
            for name, f in self.probes.items():
                if f() != self.base[name] and safe_point():
                    self.dirty.setdefault(name, []).append(T.steps)


def stop():
    if T.on:
        for c in _all_codes():
            M.set_local_events(TOOL, c, 0)
        M.register_callback(TOOL, M.events.LINE, None)
        M.free_tool_id(TOOL)
        T.on = False
    T.handler = None
    return T.steps
