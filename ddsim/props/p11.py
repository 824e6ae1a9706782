"""P11: in the placebo suite a failing test is reported in its own slot and touches no other."""
import copy
import sys

import numpy as np

from .. import canon, core, lib, seam, tracer
from .. import data as D
from ..story import MSG
from . import preload

EXC = {"LinAlgError": np.linalg.LinAlgError, "ValueError": ValueError, "KeyError": KeyError, "RuntimeError": RuntimeError, "MemoryError": MemoryError,
       "ZeroDivisionError": ZeroDivisionError, "OSError": OSError}
COMPONENTS = {"placebo_timing_test", "permutation_test", "leave_one_out_test"}


class PROP(core.Property):
    ID = "P11"
    BUDGET = {"quick": (2500, 90), "thorough": (20000, 800)}
    RULE = ("A case is one run_all_placebo_tests call in which one to four failures strike: numerical-kernel calls fail or an exception is raised at a library "
            "line below one of the component tests; the slots are compared with the fault-free suite and with each test called on its own. Non-trivial: a "
            "failure fired. Distinct: different (components hit, exceptions, slots that became errors).")
    REAL = ["all of diff_diff (python backend)", "numpy", "pandas", "scipy"]
    STUB = ["failing calls of numpy.linalg / scipy.linalg", "exceptions raised at library source lines"]
    ASSUMPTIONS = ["a component test fails by raising an Exception; interruptions (KeyboardInterrupt and the like) are P07's"]

    def __init__(self):
        super().__init__()
        preload.library()
        tracer._all_codes()

    def gen(self, rng, tier, i):
        T = rng.choice([4, 4, 6])
        s = {"kind": "did", "seed": rng.randint(0, 10 ** 6), "sd": rng.choice([0.3, 1.0]), "eff": rng.choice([0.0, 1.0]), "n": rng.randint(9, 16), "T": T,
             "t0": T // 2, "ntr": rng.choice([2, 3, 4, 1]), "labels": rng.choice(["int", "str"])}
        if rng.random() < 0.4:
            s["shuffle"] = rng.choice([1, 2])
        if rng.random() < 0.3:
            s["index"] = rng.choice(["offset", "str"])
        if rng.random() < 0.15:
            s["bad"] = rng.choice(["nan_y", "drop_rows", "const_y", "dup_rows", "all_treated"])
        a = {"alpha": rng.choice([0.05, 0.2]), "seed": rng.randint(0, 9999), "nb": rng.choice([5, 12]), "kw": rng.choice([{}, {"robust": False}, {"robust": True}])}
        n = rng.choice([0, 1, 1, 1, 2, 4])
        t = rng.choice(["kernel", "line", "line", "burst"])
        return {"data": s, "args": a, "fault": {"t": t, "pos": sorted(round(rng.random(), 5) for _ in range(n)), "exc": rng.choice(
            ["LinAlgError", "ValueError"] if t == "kernel" else sorted(EXC)), "comp": rng.randint(0, 9)}}

    def execute(self, scn):
        import diff_diff as dd
        out = core.Outcome()
        a, f = scn["args"], scn["fault"]
        df0 = D.make(scn["data"])
        if "time" not in df0 or "treated" not in df0:
            return out
        times = sorted(df0["time"].unique().tolist())
        k = len(times) // 2
        pre, post = times[:k], times[k:]

        def suite(df):
            d = df.drop(columns=["post"]).rename(columns={"time": "when"}).assign(post=df["time"].isin(post).astype(int))
            return dd.run_all_placebo_tests(d, "y", "treated", "when", "unit", pre_periods=pre, post_periods=post, n_permutations=a["nb"], alpha=a["alpha"],
                                            seed=a["seed"], **a["kw"])

        def alone(df):
            d = df.rename(columns={"time": "when"})
            jobs = {"fake_timing_%s" % p: (dd.placebo_timing_test, dict(fake_treatment_period=p, post_periods=post)) for p in pre[1:]}
            jobs["permutation"] = (dd.permutation_test, dict(unit="unit", n_permutations=a["nb"], seed=a["seed"]))
            jobs["leave_one_out"] = (dd.leave_one_out_test, dict(unit="unit"))
            res = {}
            for name in sorted(jobs, reverse=True):
                fn, kw = jobs[name]
                try:
                    res[name] = ["result", canon.canon(fn(d, outcome="y", treatment="treated", time="when", alpha=a["alpha"], **kw, **a["kw"]))]
                except Exception as e:  # noqa: BLE001
                    res[name] = ["error", type(e).__name__, str(e)]
            return res

        def ref():
            lib.arm_warnings()
            seam.reset()
            seam.S.armed = True
            tracer.start(None)
            try:
                r = suite(D.make(scn["data"]))
            finally:
                n = tracer.stop()
                seam.S.armed = False
            return {"slots": {x: canon.canon(v) for x, v in r.items()}, "raw": {x: slot_kind(v) for x, v in r.items()}, "lines": n, "kernels": seam.S.count, "warns": sorted({m for _, _, m in lib._WARN})}
        try:
            base = core.in_child(ref)
        except core.HarnessError:
            raise
        solo = core.in_child(lambda: (lib.arm_warnings(), alone(D.make(scn["data"])))[1])
        for name, v in solo.items():
            got = base["raw"].get(name)
            if got is None:
                out.violate("slot_missing", "fault-free suite has no slot %r (has %s): %s" % (name, sorted(base["raw"]), a))
            elif got[0] != v[0]:
                out.violate("slot_differs_from_test_alone", "slot %r is %s in the suite, on its own the test gives %s" % (name, got[:2], v[:2]))
            elif v[0] == "error":
                if got[1:] != v[1:]:
                    out.violate("slot_error_differs", "slot %r reports %s, on its own the test raises %s" % (name, got[1:], v[1:]))
            else:
                d = canon.diff(v[1], base["slots"][name], rtol=1e-9)
                if d:
                    out.violate("slot_differs_from_test_alone", "slot %r differs from the test run on its own: %s" % (name, d))
        out.log("solo", {x: v[0] for x, v in sorted(solo.items())}, canon.digest(base["slots"]))
        if not f["pos"] or out.violations:
            return out

        # --- the same suite with failures
        lib.arm_warnings()
        df = D.make(scn["data"])
        seam.reset()
        hit = {}

        def where():
            g = sys._getframe(2)
            while g is not None:
                if g.f_code.co_name in COMPONENTS and g.f_code.co_filename.startswith(tracer.LIB):
                    n = g.f_code.co_name
                    return {"permutation_test": "permutation", "leave_one_out_test": "leave_one_out"}.get(n) or "fake_timing_%s" % g.f_locals.get("fake_treatment_period")
                g = g.f_back
            return None
        exc = EXC[f["exc"]]
        comps = sorted(base["raw"])
        target = comps[f["comp"] % len(comps)]
        if f["t"] == "kernel":
            at = {1 + int(p * base["kernels"]) for p in f["pos"]}

            def plan(name, kk, kn):
                if kk in at:
                    c = where()
                    hit[c] = hit.get(c, 0) + 1
                    return f["exc"]
                return None
            seam.S.plan = plan
            seam.S.armed = True
            tracer.start(None)
        else:
            todo = [int(p * base["lines"]) for p in f["pos"]]

            def handler(code, line):
                if f["t"] == "line":
                    if not todo or tracer.T.steps < todo[0]:
                        return
                if code.co_name.startswith("<") or not tracer.safe_point():
                    return
                c = where()
                if c is None or (f["t"] == "burst" and c != target):
                    return
                if f["t"] == "line":
                    todo.pop(0)
                hit[c] = hit.get(c, 0) + 1
                raise exc(MSG)
            tracer.start(handler)
        died = None
        try:
            r = suite(df)
        except Exception as e:  # noqa: BLE001
            died = e
        finally:
            out.steps += tracer.stop()
            seam.reset()
        hit.pop(None, None) if f["t"] != "kernel" else None
        if not hit:
            return out
        out.nontrivial = True
        out.faults[f["exc"] + "(" + f["t"] + ")"] += sum(hit.values())
        if died is not None:
            if None in hit:
                return out
            out.violate("suite_died", "%s in %s took the whole suite down: %s: %s" % (f["exc"], sorted(hit), type(died).__name__, died))
            return out
        kinds = {x: slot_kind(v) for x, v in r.items()}
        out.log("hit", {str(x): n for x, n in sorted(hit.items(), key=str)}, {x: v[0] for x, v in sorted(kinds.items())})
        out.state = [f["exc"], sorted(map(str, hit)), sorted(x for x, v in kinds.items() if v[0] == "error")]
        if set(kinds) != set(base["raw"]):
            out.violate("slot_lost", "slots are %s, fault-free %s (failures in %s)" % (sorted(kinds), sorted(base["raw"]), sorted(map(str, hit))))
        for x, v in kinds.items():
            if x not in base["raw"]:
                continue
            d = canon.diff(base["slots"][x], canon.canon(r[x]), rtol=1e-7)
            if not d:
                continue
            if x not in hit:
                out.violate("other_slot_changed", "failures in %s changed slot %r: %s" % (sorted(map(str, hit)), x, d))
            elif v[0] == "error":
                if not v[2] or not v[1]:
                    out.violate("error_not_described", "slot %r became an error without message or type: %r" % (x, r[x]))
                elif f["t"] == "burst" and MSG not in v[2] and v[1] == f["exc"]:
                    out.violate("error_not_described", "slot %r reports %r instead of the exception that struck it (%s: %s)" % (x, v[1:], f["exc"], MSG))
            elif x.startswith("fake_timing"):
                if not announced(base, r, x):
                    out.violate("failure_hidden", "slot %r was hit by %s but holds a different result: %s" % (x, f["exc"], d))
        return out

    def shrink(self, scn):
        for p in core.shrink_list(scn["fault"]["pos"]):
            yield dict(copy.deepcopy(scn), fault=dict(scn["fault"], pos=p))
        for k in ("shuffle", "index", "bad"):
            if k in scn["data"]:
                s = copy.deepcopy(scn)
                del s["data"][k]
                yield s


def slot_kind(v):
    if isinstance(v, dict) and "error" in v:
        return ["error", str(v.get("error_type", "")), str(v["error"])]
    return ["result", type(v).__name__]


def announced(base, r, x):
    return any(m not in base["warns"] for _, _, m in lib._WARN)
