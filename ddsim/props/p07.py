"""P07: an interrupted call stops, and leaves nothing half-done behind."""
import copy

from .. import canon, core, guard, lib, ops, pstate, story
from .. import data as D
from . import preload
from .p06 import view


class PROP(core.Property):
    ID = "P07"
    BUDGET = {"quick": (1500, 110), "thorough": (25000, 800)}
    RULE = ("A case is one operation (estimator fit, or any other public call), optionally after a completed call, interrupted 1-4 times in a row by "
            "KeyboardInterrupt, SystemExit, GeneratorExit or MemoryError raised at a random executed or random distinct library source line, and then "
            "retried without a fault. Non-trivial: an interruption actually fired inside library code. Distinct: different (family, interrupted lines).")
    REAL = ["all of diff_diff (python backend)", "numpy", "pandas", "scipy", "matplotlib (Agg)"]
    STUB = ["asynchronous exceptions delivered at library source lines"]
    ASSUMPTIONS = ["interruptions arrive between source lines of diff_diff, not inside numpy/pandas/scipy",
                   "MemoryError is an ordinary Exception and may be handled where the code handles any Exception"]

    def __init__(self):
        super().__init__()
        preload.library()
        from .. import tracer
        tracer._all_codes()

    def gen(self, rng, tier, i):
        fams = ops.families()
        fam = fams[i % len(fams)] if rng.random() < 0.55 else rng.choice(sorted(ops.EST))
        op = ops.gen_fam(rng, fam)
        prior = None
        if fam in ops.EST and rng.random() < 0.5:
            prior = ops.gen_fam(rng, fam)
            prior["params"] = copy.deepcopy(op["params"])
        kinds = ("KeyboardInterrupt", "KeyboardInterrupt", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "MemoryError")
        return {"op": op, "prior": prior, "hits": [story.gen_line(rng, kinds) for _ in range(rng.choice([1, 1, 2, 4]))]}

    def execute(self, scn):
        out = core.Outcome()
        op, prior = scn["op"], scn["prior"]
        fam = op["fam"]
        is_est = fam in ops.EST
        ref = lib.reference(op, render=not is_est, view=view if is_est else None)
        lib.arm_warnings()
        df = D.make(op["data"])
        frame0 = guard.fp(df)
        est, old, old_canon = None, None, None
        if is_est:
            est = ops.build(copy.deepcopy(op))
            if prior:
                o, old = lib.call(prior, df=D.make(prior["data"]), est=est, render=False)
                old_canon = canon.canon(old)
                out.log("prior", o["ok"], canon.digest(old_canon))
        hist = []
        for h in scn["hits"]:
            before = view(est) if is_est else None
            glob = pstate.snapshot()
            held = getattr(est, "results_", None) if is_est else None
            st = story.perform(op, ref, h, df=df, est=est, render=not is_est)
            out.steps += st.lines
            hist.append([h["exc"], st.fired and st.fired[0][1]])
            if st.escaped is None and not st.ok and st.exc[0] == h["exc"]:
                st.escaped = st.exc[0]
            out.log("hit", h["exc"], st.fired, st.ok, st.exc, st.escaped)
            if not st.fired:
                continue
            out.nontrivial = True
            out.faults[h["exc"]] += 1
            where = "%s: %s raised at %s" % (lib.short(op), h["exc"], st.fired[0][1])
            if st.escaped is None and h["exc"] != "MemoryError":
                out.violate("interruption_swallowed:" + fam, where + " did not reach the caller (call %s)" % ("returned" if st.ok else "raised %s" % (st.exc,)))
                return out
            ch = pstate.changed(glob, pstate.snapshot())
            if ch:
                out.violate("global_state_after_interruption:" + fam, where + " left changed: %s" % ch)
                return out
            if guard.fp(df) != frame0:
                out.violate("input_after_interruption:" + fam, where + " left the caller's frame modified")
                return out
            if is_est and st.escaped is not None:
                d = self.torn(est, before, ref, held)
                if d:
                    out.violate("half_updated_estimator:" + fam, where + ": " + d)
                    return out
            elif is_est:
                out.probes["memory_error_handled"] += 1
            if old is not None and repr(canon.canon(old)) != repr(old_canon):
                out.violate("earlier_result_changed:" + fam, where + " changed the result of the earlier fit")
                return out
        st = story.perform(op, ref, None, df=df, est=est, render=not is_est)
        out.log("retry", st.ok, st.exc, canon.digest(st.canon))
        d = lib.same(ref, st.as_call(), warns=True)
        if not d and is_est and st.ok:
            d = canon.diff(ref["view"], view(est))
        if d:
            out.violate("retry_differs:" + fam, "%s retried after %s differs from an undisturbed call: %s" % (lib.short(op), hist, d))
        out.state = [fam, hist]
        return out

    @staticmethod
    def torn(est, before, ref, held):
        """Public fitted surface after an interruption: what it was, or the complete new one, or plainly unfitted."""
        now = dict(_pairs(view(est)))
        b = dict(_pairs(before))
        n = dict(_pairs(ref["view"])) if ref["ok"] else b
        if canon.diff(b.get("call:get_params"), now.get("call:get_params")):
            return "its parameters changed"
        for k, v in now.items():
            if k == "call:get_params":
                continue
            olds = [b.get(k), n.get(k), None, False]
            if k == "call:summary" and isinstance(v, list) and v[:1] == ["l"] and "exc" in v:
                # refusing because it is not fitted is fine; crashing on a half-set attribute is not
                if v[-1] in ("RuntimeError", "ValueError") or not canon.diff(b.get(k), v):
                    continue
                return "summary() now fails with %s" % v[-1]
            if all(canon.diff(o, v) for o in olds):
                return "attribute %s is neither its old nor its complete new value" % k
        fitted = now.get("is_fitted_")
        if fitted is True and now.get("results_", 0) is None:
            return "it says it is fitted but holds no results"
        return None

    def shrink(self, scn):
        for h in core.shrink_list(scn["hits"]):
            if h:
                yield dict(copy.deepcopy(scn), hits=copy.deepcopy(h))
        if scn["prior"]:
            yield dict(copy.deepcopy(scn), prior=None)
        for i, h in enumerate(scn["hits"]):
            if h["exc"] != "KeyboardInterrupt":
                c = copy.deepcopy(scn)
                c["hits"][i]["exc"] = "KeyboardInterrupt"
                yield c
        if not scn["prior"]:
            for o in ops.shrink_op(scn["op"]):
                yield dict(copy.deepcopy(scn), op=o)


def _pairs(v):
    return [(k, x) for k, x in v[1]]
