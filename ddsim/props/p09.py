"""P09: failed resampling replicates are left out and disclosed, never guessed."""
import copy
import math
import re

from .. import core, lib, resample, rngseam, seam, tracer
from .. import data as D
from ..story import MSG
from . import preload
import numpy as np


class PROP(core.Property):
    ID = "P09"
    BUDGET = {"quick": (900, 100), "thorough": (25000, 800)}
    RULE = ("A case is one resampling procedure (SyntheticDiD bootstrap / placebo, SunAbraham bootstrap, TROP two-step / joint x bootstrap / jackknife, "
            "permutation test, leave-one-out) run fault-free and again with numerical failures in chosen replicates (one, several, a run of them, all but "
            "one, all), or a ValueError/LinAlgError at a library line of the replicate region. Non-trivial: a failure fired. Distinct: different "
            "(procedure, failures per replicate region, number of survivors, outcome).")
    REAL = ["all of diff_diff (python backend)", "numpy", "pandas", "scipy"]
    STUB = ["failing calls of numpy.linalg / scipy.linalg and of the SDID weight and estimate routines", "np.random.default_rng records draws"]
    ASSUMPTIONS = ["a replicate fails by raising LinAlgError or ValueError"]

    def __init__(self):
        super().__init__()
        preload.numeric()
        rngseam.install()
        preload.library()
        resample.install_helpers()
        tracer._all_codes()

    def gen(self, rng, tier, i):
        fam = resample.FAMS[i % len(resample.FAMS)]
        op = resample.gen(rng, fam)
        x = rng.random()
        if x < 0.08:
            f = {"t": "all"}
        elif x < 0.2:
            f = {"t": "keep", "pos": [round(rng.random(), 5)]}      # only calls around this point succeed
        elif x < 0.75:
            f = {"t": "kernel", "pos": sorted(round(rng.random(), 5) for _ in range(rng.choice([1, 1, 2, 3, 6]))), "run": rng.choice([1, 1, 1, 3, 10])}
        else:
            f = {"t": "line", "pos": sorted(round(rng.random(), 5) for _ in range(rng.choice([1, 1, 2, 4])))}
        f["exc"] = rng.choice(["LinAlgError", "LinAlgError", "ValueError"])
        return {"op": op, "fault": f}

    def execute(self, scn):
        out = core.Outcome()
        op, f = scn["op"], scn["fault"]
        rec = resample.record(op)
        if not rec["ok"]:
            out.probes["reference_refused"] += 1
            return out
        k0 = resample.base_kernels(op)
        if k0 is None:
            out.probes["no_draws"] += 1
            return out
        lib.arm_warnings()
        df = D.make(op["data"])
        seam.reset()
        rngseam.reset()
        fired = []
        region = max(0, rec["kernels"] - k0)
        if f["t"] == "line":
            mk = np.linalg.LinAlgError if f["exc"] == "LinAlgError" else ValueError
            at = [int(p * rec["lines"]) for p in f["pos"]]
            seam.S.armed = rngseam.S.armed = True

            def handler(code, line):
                if not at or tracer.T.steps < at[0] or seam.S.count < k0 or not rngseam.S.draws:
                    return
                if code.co_name.startswith("<") or not deeper(code) or not tracer.safe_point():
                    return
                at.pop(0)
                fired.append(["line", code.co_qualname])
                raise mk(MSG)
            tracer.start(handler)
        else:
            if not region:
                out.probes["no_replicate_kernels"] += 1
                return out
            if f["t"] == "all":
                hit = lambda k: k > k0
            elif f["t"] == "keep":
                c = k0 + 1 + int(f["pos"][0] * region)
                w = max(2, region // 4)
                hit = lambda k: k > k0 and not (c <= k < c + w)
            else:
                starts = [k0 + 1 + int(p * region) for p in f["pos"]]
                hit = lambda k: any(a <= k < a + f["run"] for a in starts)
            seam.S.plan = lambda name, k, kn: f["exc"] if hit(k) and "svd" not in name else None
            seam.S.armed = True
        n0 = len(lib._WARN)
        exc = None
        try:
            r = resample.call(op, df)
        except Exception as e:  # noqa: BLE001
            exc = e
        finally:
            tracer.stop()
            fired += [[k, n] for k, n, _ in seam.S.fired]
            seam.reset()
            rngseam.reset()
        warns = [m for _, _, m in lib._WARN[n0:]]
        fam = op["fam"] + ("/" + op["params"].get("variance_method", "") if op["params"].get("variance_method") else "")
        for x in fired[:200]:
            out.faults["%s(%s)" % (x[0], x[1] if f["t"] != "line" else "line")] += 1
        out.nontrivial = bool(fired)
        if not fired:
            return out
        n_req = resample.requested(op, df)
        if exc is not None:
            out.log(fam, len(fired), "raised", type(exc).__name__)
            out.state = [fam, fired[:3], len(fired), "raised"]
            out.probes["raised"] += 1
            # graceful: a numerical failure confined to few replicates must not take the call down
            if f["t"] == "kernel" and op["fam"] != "trop" and len(rec["surv"]) - len(fired) >= 2:
                out.violate("one_failure_kills_all:" + fam, "%s: %d failed routine call(s) in replicates, %d replicates unaffected, but the call raised %s: %s"
                            % (lib.short(op), len(fired), len(rec["surv"]) - len(fired), type(exc).__name__, exc))
            return out
        surv = resample.survivors(op, r)
        s = resample.summary(op, r)
        ref = rec["surv"]
        out.log(fam, fired[:20], len(ref), len(surv), ["%.9g" % v for v in surv], {k: repr(v) for k, v in sorted(s.items())})
        out.state = [fam, fired[:3], len(ref), len(surv)]
        if abs(resample.point(op, r) - rec["point"]) > 1e-6 * (1 + abs(rec["point"])):
            out.violate("point_estimate_changed:" + fam, "%s: failures in replicates changed the point estimate from %r to %r"
                        % (lib.short(op), rec["point"], resample.point(op, r)))
        lost = resample.match(ref, surv)
        new = [w for w in warns if w not in rec["warns"]]
        if lost is None and f["t"] == "line" and any(re.search(r"(?i)svd|singular|lstsq|pseudo|fall|unregulari|numerical", w) for w in new):
            out.probes["replicate_degraded_announced"] += 1     # an inner fallback with its own warning took the failure
            return out
        if lost is None:
            out.violate("replicate_invented:" + fam, "%s: after %s the replicates %s contain values that no fault-free replicate has (%s)"
                        % (lib.short(op), fired[:4], ["%.6g" % v for v in surv], ["%.6g" % v for v in ref]))
        elif lost > len(fired):
            out.violate("replicates_lost:" + fam, "%s: %d failure(s) cost %d replicates" % (lib.short(op), len(fired), lost))
        for m in resample.inference(op, s, surv):
            out.violate("inference_not_from_survivors:" + fam, "%s: after %d failures: %s" % (lib.short(op), len(fired), m))
        if lost:
            out.probes["replicates_lost"] += 1
            if len(surv) < 2:
                out.probes["fewer_than_two_left"] += 1
            disclosed = any(re.search(r"(?<![\d.])%d(?![\d.])" % len(surv), w) or re.search(r"(?<![\d.])%d(?![\d.])" % (n_req - len(surv)), w)
                            for w in warns if w not in rec["warns"])
            nan = all(math.isnan(s[k]) for k in ("t", "p"))
            limit = n_req * 0.1 if op["fam"] != "trop" else max(0, n_req - 10)
            if n_req - len(surv) > limit and not disclosed and not nan and not (op["fam"] == "trop" and "jackknife" in fam):
                out.violate("loss_not_disclosed:" + fam, "%s: %d of %d replicates survive, no warning says so: %s"
                            % (lib.short(op), len(surv), n_req, warns))
        return out

    def shrink(self, scn):
        f = scn["fault"]
        if f["t"] in ("kernel", "line"):
            for p in core.shrink_list(f["pos"]):
                if p:
                    yield dict(copy.deepcopy(scn), fault=dict(f, pos=p))
            if f.get("run", 1) > 1:
                yield dict(copy.deepcopy(scn), fault=dict(f, run=1))
        from .. import ops
        for o in ops.shrink_op(scn["op"]):
            if o["data"].get("labels") == "str":
                yield dict(copy.deepcopy(scn), op=o)


def deeper(code):
    """Is the raising frame below the frame that runs the replicates (the one that drew from the generator)?"""
    import sys
    f = sys._getframe(3)
    depth = 0
    while f is not None:
        if f.f_code.co_filename.startswith(tracer.LIB):
            depth += 1
            if depth > 1 and any(isinstance(v, rngseam.RecGen) for v in f.f_locals.values()):
                return True
        f = f.f_back
    return False
