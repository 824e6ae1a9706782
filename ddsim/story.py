"""Steps of a simulated caller: one public operation, possibly with a fault in it.

fault specs (positions are fractions of what the pristine reference run did, so
they stay meaningful when unrelated code changes):
  {"t": "kernel", "pos": [f, ...], "what": kind, "run": n}   k-th numerical-kernel call fails (n in a row)
       with "pick": [[f1, f2], ...] also the f2-th call of the f1-th routine (by name)
  {"t": "line", "at": f, "exc": "KeyboardInterrupt" | "MemoryError" | "SystemExit"}   asynchronous exception at the f-th executed line
  {"t": "uline", ...}   the same, at the first execution of the f-th distinct line
  {"t": "dline", ...}   the same, but among the lines at which the reference run had process state, the
                        estimator or the caller's frame temporarily changed (as uline when there are none)
"""
from . import guard, lib, seam, tracer

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit,
       "GeneratorExit": GeneratorExit, "RuntimeError": RuntimeError}
MSG = "simulated: injected here"


def gen_fault(rng, p_none=0.4, p_kernel=0.5, kinds=("KeyboardInterrupt", "KeyboardInterrupt", "MemoryError")):
    x = rng.random()
    if x < p_none:
        return None
    if x < p_none + (1 - p_none) * p_kernel:
        n = rng.choice([1, 1, 1, 2, 3])
        return {"t": "kernel", "pos": sorted(round(rng.random(), 5) for _ in range(n)), "what": rng.choice(["exc", "exc", "nan", "noconv"]),
                "run": rng.choice([1, 1, 2, 5])}
    return gen_line(rng, kinds)


def gen_line(rng, kinds=("KeyboardInterrupt", "KeyboardInterrupt", "MemoryError")):
    return {"t": rng.choice(["line", "uline", "uline", "dline", "dline"]), "at": round(rng.random(), 6), "exc": rng.choice(list(kinds))}


def kind_for(name, what, salt):
    kinds = seam.kinds_for(name)
    if what == "nan":
        return "nan" if "nan" in kinds else kinds[salt % len(kinds)]
    if what == "noconv":
        if "noconv" in kinds:
            return "noconv"
    k = [x for x in kinds if x not in ("nan", "noconv")]
    return k[salt % len(k)]


class Step:
    """Result of one step."""
    __slots__ = ("ok", "exc", "canon", "warns", "fired", "lines", "result", "escaped")

    def as_call(self):
        return {"ok": self.ok, "canon": self.canon, "exc": self.exc, "warns": self.warns}


def line_step(ref, fault):
    f = fault["at"]
    firsts = ref.get("firsts") or [1]
    if fault["t"] == "dline":
        lists = [v for k, v in sorted((ref.get("dirty") or {}).items()) if k == fault.get("want", k)]
        if lists:
            x = f * len(lists)
            firsts = lists[int(x)]
            return firsts[int((x - int(x)) * len(firsts))]
    if fault["t"] in ("uline", "dline"):
        return firsts[int(f * len(firsts))]
    return 1 + int(f * max(1, ref.get("lines", 1)))


def perform(op, ref, fault=None, df=None, est=None, render=True, result_too=True):
    """Run one op in this process under the given fault."""
    st = Step()
    st.fired = []
    st.escaped = None
    st.result = None
    seam.reset()
    handler = None
    box = {"fired": False}
    if fault and fault["t"] == "kernel":
        total = max(1, ref.get("kernels", 1))
        starts = [1 + int(f * total) for f in fault["pos"]]
        if fault.get("pick"):
            names = sorted(set(ref.get("knames") or []))
            for f1, f2 in fault["pick"] if names else ():
                at = [j + 1 for j, n in enumerate(ref["knames"]) if n == names[int(f1 * len(names))]]
                starts.append(at[int(f2 * len(at))])
        span = fault.get("run", 1)
        fault_what = fault["what"]
        seam.S.plan = lambda name, k, kn: kind_for(name, fault_what, k) if any(k0 <= k < k0 + span for k0 in starts) else None
        seam.S.armed = True
    elif fault and fault["t"] in ("line", "uline", "dline"):
        at = line_step(ref, fault)
        exc = EXC[fault["exc"]]

        def handler(code, line):
            if tracer.T.steps >= at and not box["fired"] and tracer.safe_point():
                box["fired"] = True
                st.fired.append((fault["exc"], code.co_filename.rsplit("/", 1)[-1] + ":" + code.co_qualname, at))
                raise exc(MSG)
    tracer.start(handler)
    try:
        out, st.result = lib.call(op, df=df, est=est, render=render)
    except BaseException as e:  # noqa: BLE001 - the injected one, normally
        if str(e) != MSG:
            raise
        st.escaped = type(e).__name__
        out = {"ok": False, "exc": [type(e).__name__, str(e)], "warns": []}
    finally:
        st.lines = tracer.stop()
        if seam.S.fired:
            st.fired += [(k, n, c) for k, n, c in seam.S.fired]
        seam.reset()
    st.ok, st.exc, st.canon, st.warns = out["ok"], out.get("exc"), out.get("canon"), out["warns"]
    return st
