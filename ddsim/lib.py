"""Running catalogue ops and recording what they do."""
import re
import threading
import warnings

from . import data as D
from . import ops
from .canon import canon, diff

_WARN = []


def arm_warnings():
    """All warnings shown, recorded with the thread that raised them."""
    warnings.resetwarnings()
    warnings.simplefilter("always")

    def show(message, category, filename, lineno, file=None, line=None):
        _WARN.append((threading.get_ident(), category.__name__, str(message)))
    warnings.showwarning = show


def take_warnings(tid=None):
    out = [(c, m) for t, c, m in _WARN if tid is None or t == tid]
    if tid is None:
        _WARN.clear()
    return out


def call(op, df=None, est=None, render=True):
    """-> {"ok", "canon" | "exc", "warns"} ; BaseExceptions propagate."""
    n0 = len(_WARN)
    me = threading.get_ident()
    r = None
    try:
        r, c = ops.run(op, df=df, est=est, render=render)
        out = {"ok": True, "canon": c}
    except Exception as e:  # noqa: BLE001
        out = {"ok": False, "exc": [type(e).__name__, str(e)[:300]]}
    out["warns"] = [(c, m) for t, c, m in _WARN[n0:] if t == me]
    return out, r


def reference(op, params=None, render=True, view=None, kept=False):
    """Result of the op in a pristine process image.

    Also: lines executed, first step of every distinct line, steps at which shared state is
    temporarily different, numerical-kernel calls;
    with view(est) given, that too (families with an estimator object)."""
    import copy
    op = copy.deepcopy(op)
    if params is not None:
        op["params"] = copy.deepcopy(params)

    def go():
        arm_warnings()
        from . import pstate, seam, tracer
        seam.reset()
        seam.S.armed = True
        df = D.make(op["data"])
        est = ops.build(op) if view is not None else None
        probes = {"process": pstate.quick, "frame": lambda: pstate.frame_quick(df)}
        if est is not None:
            probes["estimator"] = lambda: sorted((k, id(v)) for k, v in vars(est).items())
        firsts = tracer.Firsts(probes, pstate.ModuleState().fp if kept else None)
        tracer.start(firsts)
        try:
            o, _ = call(op, df=df, est=est, render=render)
        finally:
            n = tracer.stop()
            seam.S.armed = False
        o["lines"] = n
        o["firsts"] = firsts.steps
        o["dirty"] = firsts.dirty
        o["writes"] = firsts.writes
        o["kernels"] = seam.S.count
        o["knames"] = list(seam.S.names)
        seam.reset()
        if view is not None:
            o["view"] = view(est)
        return o
    from . import core
    return core.in_child(go)


def settle(o):
    """Leave out whether the power at the MDV - equal to the target by construction - is above or below it by rounding."""
    if not o.get("ok"):
        return o

    def tie(c):
        if isinstance(c, list):
            if len(c) == 2 and c[0] == "map" and isinstance(c[1], list):
                m = {k: v for k, v in c[1] if isinstance(k, str)}
                p, t = m.get("power"), m.get("target_power")
                if isinstance(p, float) and isinstance(t, float) and abs(p - t) < 1e-6:
                    return True
            return any(tie(v) for v in c)
        return False

    def go(c):
        if isinstance(c, str) and "target (" in c:
            out, skip = [], 0
            for ln in c.split("\n"):
                m = re.match(r"\S Power \((\d+)%\) (?:meets|below) target \((\d+)%\)", ln)
                skip = 2 if m and m.group(1) == m.group(2) else max(skip - 1, 0)
                if not skip:
                    out.append(ln)
            return "\n".join(out)
        if isinstance(c, list):
            if c and c[0] == "df":
                return ["df", c[1], [None if k == "power_adequate" else go(v) for k, v in zip(c[1], c[2])]] + c[3:]
            return [[v[0], None] if isinstance(v, list) and len(v) == 2 and v[0] == "power_adequate" else go(v) for v in c]
        return c
    return dict(o, canon=go(o["canon"])) if tie(o["canon"]) else o


def same(a, b, warns=False, rtol=1e-9):
    """None when both outcomes agree, else a description of the first difference."""
    if a["ok"] != b["ok"]:
        return "one raised (%s), the other returned" % (a.get("exc") or b.get("exc"),)
    if not a["ok"]:
        return None if a["exc"][0] == b["exc"][0] else "raised %s instead of %s" % (b["exc"], a["exc"])
    d = diff(a["canon"], b["canon"], rtol=rtol)
    if d and rtol >= 1e-7:
        d = diff(settle(a)["canon"], settle(b)["canon"], rtol=rtol)
    if d:
        return d
    if warns:
        wa, wb = sorted(w[0] for w in a["warns"]), sorted(w[0] for w in b["warns"])
        if wa != wb:
            return "warnings differ: %s vs %s" % ([w[1][:60] for w in a["warns"]], [w[1][:60] for w in b["warns"]])
    return None


def short(op):
    return "%s%s fit=%s data=%s" % (op["fam"], {k: v for k, v in op["params"].items() if v is not None},
                                    op["fit"], {k: v for k, v in op["data"].items() if k != "eff"})
