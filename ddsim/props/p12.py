"""P12: simulation-based power counts exactly the simulations that ran, says what was lost, and reports what the estimator reports."""
import copy
import math
import re
import types

import numpy as np

from .. import core, lib, seam, tracer
from ..story import MSG
from . import preload

EST = ["DifferenceInDifferences", "TwoWayFixedEffects", "MultiPeriodDiD", "CallawaySantAnna", "Custom", "CustomAvg"]
EXC = {"LinAlgError": np.linalg.LinAlgError, "ValueError": ValueError, "RuntimeError": RuntimeError, "KeyError": KeyError, "MemoryError": MemoryError,
       "ZeroDivisionError": ZeroDivisionError}


class PROP(core.Property):
    ID = "P12"
    BUDGET = {"quick": (2500, 90), "thorough": (20000, 800)}
    RULE = ("A case is one simulate_power call over 1-4 effect sizes with a recording data generator, in which the fits of chosen simulations fail (any "
            "exception, before or after the real fit, or when the returned result is read; failing numerical kernels; exceptions at library lines) or all fits of one effect size fail. Non-trivial: "
            "a fit failed. Distinct: different (estimator, failures per effect size, kind of failure, outcome).")
    REAL = ["diff_diff.power.simulate_power, the estimators, numpy, pandas, scipy"]
    STUB = ["data generator and estimator are recording wrappers around the real ones (public arguments); failing kernels and lines"]
    ASSUMPTIONS = ["a simulation fails by its fit raising an Exception; what the wrapped fit returned or raised is the ground truth"]

    def __init__(self):
        super().__init__()
        preload.library()
        tracer._all_codes()

    def gen(self, rng, tier, i):
        est = EST[i % len(EST)]
        nsim = rng.choice([3, 5, 8, 12, 20])
        eff = rng.choice([None, None, [0.5], [0.0, 1.0], [2.0, 1.0, 0.2], [1.0, 1.0000000001], [3.0, 0.0, -1.0, 0.5]])
        total = nsim * len(eff or [0])
        x = rng.random()
        if x < 0.2:
            fail = []
        elif x < 0.75:
            fail = sorted({rng.randrange(total) for _ in range(rng.choice([1, 1, 2, 4, max(1, total // 3)]))})
        elif x < 0.9:
            j = rng.randrange(len(eff or [0]))
            fail = list(range(j * nsim, (j + 1) * nsim))            # every simulation of one effect size
        else:
            keep = rng.randrange(nsim)
            fail = [k for k in range(nsim) if k != keep]
        return {"est": est, "args": {"n_units": rng.choice([8, 12, 20]), "n_periods": rng.choice([4, 4, 5]), "treatment_effect": rng.choice([0.0, 1.0, 3.0]),
                                     "treatment_fraction": rng.choice([0.5, 0.25]), "treatment_period": rng.choice([2, 3]), "sigma": rng.choice([0.5, 2.0]),
                                     "n_simulations": nsim, "alpha": rng.choice([0.05, 0.2]), "effect_sizes": eff, "seed": rng.randint(0, 9999)},
                "gkw": rng.choice([None, {"unit_fe_sd": 0.5}, {"time_trend": -1.0}]), "ekw": rng.choice([None, None, "cov"]), "stag": est == "CallawaySantAnna" and rng.random() < 0.5,
                "fail": fail, "how": rng.choice(["before", "after", "kernel", "line", "before", "result"]), "part": rng.choice(["se", "p_value", "conf_int", "p_value:None", "conf_int:None"]), "exc": rng.choice(sorted(EXC)), "base_exc": rng.random() < 0.05}

    def execute(self, scn):
        import diff_diff as dd
        out = core.Outcome()
        a = copy.deepcopy(scn["args"])
        est = scn["est"]
        fail = set(scn["fail"])
        calls, gens = [], []
        st = {"sim": -1, "in_fit": False, "armed": False}
        exc = KeyboardInterrupt if scn["base_exc"] else EXC[scn["exc"]]

        def gen(**kw):
            st["sim"] += 1
            gens.append(kw)
            d = {k: v for k, v in kw.items() if k != "wobble"}
            df = dd.generate_did_data(**d)
            df["x1"] = np.sin(np.arange(len(df)) * 1.7 + st["sim"])
            if scn["stag"]:
                late = df["unit"] % 2 == 1
                df["first_treat"] = np.where(df["treated"] == 1, np.where(late, kw["n_periods"] - 1, kw["treatment_period"]), 0)
            gens[-1] = dict(kw, _df=df.copy())
            return df

        base = getattr(dd, est, None)

        def real_fit(self_, data, kw):
            if base is not None:
                return base.fit(self_, data, **kw)
            y = data["outcome"].to_numpy()
            t, p = data["treated"].to_numpy() == 1, data["post"].to_numpy() == 1
            e = y[t & p].mean() - y[t & ~p].mean() - y[~t & p].mean() + y[~t & ~p].mean()
            s = float(y.std() / math.sqrt(len(y)))
            v = dict(att=e, se=s, p_value=math.exp(-abs(e / s)), conf_int=(e - 2 * s, e + 2 * s))
            return types.SimpleNamespace(**({"avg_" + k: x for k, x in v.items()} if est == "CustomAvg" else v))

        def fit(self_, data, **kw):
            k = st["sim"]
            rec = {"sim": k, "kw": dict(kw), "res": None, "exc": None}
            calls.append(rec)
            hit = k in fail
            st["in_fit"] = True
            try:
                if hit and scn["how"] == "before":
                    out.faults[exc.__name__ + "(before)"] += 1
                    raise exc(MSG)
                st["armed"] = hit
                r = real_fit(self_, data, kw)
                st["armed"] = False
                if hit and (scn["how"] == "after" or (scn["how"] in ("kernel", "line") and base is None)):
                    out.faults[exc.__name__ + "(after)"] += 1
                    raise exc(MSG)
                if hit and scn["how"] == "result":
                    rec["exc"] = TypeError(MSG) if scn["part"].endswith("None") else exc(MSG)
                    out.faults["%s(result.%s)" % ("None" if scn["part"].endswith("None") else exc.__name__, scn["part"].split(":")[0])] += 1
                    return Broken(r, scn["part"], rec["exc"])
                rec["res"] = pick(r)
                return r
            except BaseException as e:
                rec["exc"] = e
                raise
            finally:
                st["in_fit"] = st["armed"] = False
        cls = type(est, (base or object,), {"fit": fit})
        kw0 = {}
        if est in ("DifferenceInDifferences", "CallawaySantAnna") and scn["ekw"] == "cov":
            kw0 = {"covariates": ["x1"]}
        lib.arm_warnings()
        n0 = len(lib._WARN)
        seam.reset()
        seam.S.plan = lambda name, k, kn: (st.update(armed=False) or "LinAlgError") if st["armed"] and scn["how"] == "kernel" else None
        seam.S.armed = scn["how"] == "kernel"

        def handler(code, line):
            if st["armed"] and tracer.T.steps % 7 == 0 and not code.co_name.startswith("<") and tracer.safe_point():
                st["armed"] = False
                out.faults[exc.__name__ + "(line)"] += 1
                raise exc(MSG)
        tracer.start(handler if scn["how"] == "line" else None)
        r, died = None, None
        eff0 = copy.deepcopy(a["effect_sizes"])
        try:
            r = dd.simulate_power(cls(), data_generator=gen, data_generator_kwargs=scn["gkw"], estimator_kwargs=kw0 or None, progress=False, **a)
        except BaseException as e:  # noqa: BLE001
            died = e
        finally:
            out.steps += tracer.stop()
            for kk, n, _ in seam.S.fired:
                out.faults["%s(%s)" % (kk, n)] += 1
            seam.reset()
        warns = [m for _, _, m in lib._WARN[n0:]]
        effs = list(eff0) if eff0 is not None else [a["treatment_effect"]]
        nsim, E = a["n_simulations"], len(effs)
        failed = [c for c in calls if c["exc"] is not None]
        out.nontrivial = bool(failed)
        out.state = [est, [sum(c["sim"] // nsim == j for c in failed) for j in range(E)], scn["how"], type(died).__name__]
        out.log(est, len(calls), [c["sim"] for c in failed], type(died).__name__, warns)

        def bad(cls_, msg):
            out.violate(cls_ + ":" + est, "simulate_power(%s, %s) with failing fits %s (%s): %s" % (est, {k: v for k, v in a.items()}, scn["fail"][:12], scn["how"], msg))
        if failed and not isinstance(failed[0]["exc"], Exception):
            if died is not failed[0]["exc"]:
                bad("interruption_swallowed", "KeyboardInterrupt in a fit did not reach the caller (%r)" % (died,))
            return out
        # what the generator was asked for
        for k, g in enumerate(gens):
            want = {"n_units": a["n_units"], "n_periods": a["n_periods"], "treatment_effect": effs[min(k // nsim, E - 1)], "treatment_fraction": a["treatment_fraction"],
                    "treatment_period": a["treatment_period"], "noise_sd": a["sigma"], **(scn["gkw"] or {})}
            diff = {x: (g.get(x), v) for x, v in want.items() if g.get(x) != v}
            if diff:
                bad("generator_arguments", "simulation %d asked the generator for %s" % (k, diff))
                return out
        seeds = [int(g["seed"]) for g in gens]
        if len(set(seeds)) != len(seeds):
            bad("repeated_sample", "two simulations share a data seed: %s" % seeds)
        per = [[c for c in calls if c["sim"] // nsim == j] for j in range(E)]
        dead = [j for j in range(E) if len(per[j]) == nsim and all(c["exc"] is not None for c in per[j])]
        if dead:
            out.probes["effect_size_without_result"] += 1
            if died is None:
                bad("nothing_ran_not_reported", "no simulation of effect %r succeeded, yet a result came back: power %r" % (effs[dead[0]], r.power))
            return out
        if died is not None:
            bad("failures_kill_the_run", "raised %s: %s although every effect size has successful simulations" % (type(died).__name__, died))
            return out
        if [len(p) for p in per] != [nsim] * E:
            bad("simulations_missing", "fits per effect size %s, requested %d" % ([len(p) for p in per], nsim))
            return out
        powers = []
        for j in range(E):
            ok = [c["res"] for c in per[j] if c["exc"] is None]
            powers.append(sum(x["p"] < a["alpha"] for x in ok) / len(ok))
            lost = nsim - len(ok)
            if lost > 0.1 * nsim and not any(re.search(r"(?<![\d.])%d(?![\d.])" % lost, w) or re.search(r"(?<![\d.])%d(?![\d.])" % len(ok), w) for w in warns):
                bad("loss_not_disclosed", "%d of %d simulations of effect %r failed, no warning says so: %s" % (lost, nsim, effs[j], warns))
        if list(map(float, r.effect_sizes)) != list(map(float, effs)) or len(r.powers) != E or any(abs(x - y) > 1e-9 for x, y in zip(r.powers, powers)):
            bad("power_wrong", "powers %s for effects %s, successful simulations give %s" % (r.powers, r.effect_sizes, powers))
            return out
        cand = [j for j in range(E) if effs[j] == r.true_effect]
        close = [j for j in range(E) if np.isclose(effs[j], a["treatment_effect"])]
        j = cand[0] if cand else None
        if j is None or (close and j not in close):
            bad("primary_effect", "reports true_effect %r for effects %s, treatment_effect %r" % (r.true_effect, effs, a["treatment_effect"]))
            return out
        ok = [c["res"] for c in per[j] if c["exc"] is None]
        n = len(ok)
        est_ = [x["att"] for x in ok]
        want = {"power": powers[j], "rejection_rate": powers[j], "power_se": math.sqrt(powers[j] * (1 - powers[j]) / n), "mean_estimate": float(np.mean(est_)),
                "std_estimate": float(np.std(est_, ddof=1)) if n > 1 else float("nan"), "mean_se": float(np.mean([x["se"] for x in ok])),
                "coverage": sum(x["ci"][0] <= effs[j] <= x["ci"][1] for x in ok) / n, "n_simulations": n, "alpha": a["alpha"]}
        for k, v in want.items():
            g = float(getattr(r, k))
            if not (abs(g - v) <= 1e-8 * (1 + abs(v)) or (math.isnan(g) and math.isnan(v))):
                bad("summary_wrong", "%s is %r, the %d successful simulations give %r" % (k, g, n, v))
        z = 1.959963984540054
        ci = (max(0.0, powers[j] - z * want["power_se"]), min(1.0, powers[j] + z * want["power_se"]))
        if any(abs(x - y) > 1e-6 for x, y in zip(r.power_ci, ci)):
            bad("summary_wrong", "power interval %s, expected %s" % (r.power_ci, ci))
        got = [(s["estimate"], s["se"], s["p_value"], bool(s["rejected"])) for s in r.simulation_results or []]
        exp = [(x["att"], x["se"], x["p"], bool(x["p"] < a["alpha"])) for x in ok]
        if len(got) != len(exp) or any(not all(u == v or abs(u - v) < 1e-9 or (u != u and v != v) for u, v in zip(x, y)) for x, y in zip(got, exp)):
            bad("simulation_results", "lists %d simulations %s, successful are %d %s" % (len(got), got[:3], len(exp), exp[:3]))
        # the estimator was used as documented: a plain fit of the same data gives the same effect
        if base is not None:
            c = next(c for c in per[j] if c["exc"] is None)
            if c["sim"] not in fail:
                plain = documented(dd, est, gens[c["sim"]]["_df"], a, kw0)
                if any(abs(plain[k] - c["res"][k]) > 1e-7 * (1 + abs(plain[k])) for k in ("att", "se")):
                    bad("not_the_estimator", "simulation %d used %r, a plain %s fit of the same data gives %r" % (c["sim"], c["res"], est, plain))
        return out

    def shrink(self, scn):
        for p in core.shrink_list(scn["fail"]):
            yield dict(copy.deepcopy(scn), fail=p)
        for k in ("gkw", "ekw"):
            if scn[k]:
                yield dict(copy.deepcopy(scn), **{k: None})
        if scn["args"]["effect_sizes"]:
            s = copy.deepcopy(scn)
            s["args"]["effect_sizes"] = None
            s["fail"] = [k for k in s["fail"] if k < s["args"]["n_simulations"]]
            yield s


class Broken:
    """A fit result of which one part cannot be had."""

    def __init__(self, r, part, exc):
        self.__dict__.update(_r=r, _part=part, _exc=exc)

    def __getattr__(self, name):
        v = getattr(self._r, name)
        part, _, how = self._part.partition(":")
        if name.endswith(part):
            if how == "None":
                return None
            raise self._exc
        return v


def pick(r):
    for pre in ("", "avg_", "overall_"):
        if hasattr(r, pre + "att"):
            return {"att": float(getattr(r, pre + "att")), "se": float(getattr(r, pre + "se")), "p": float(getattr(r, pre + "p_value")),
                    "ci": [float(v) for v in getattr(r, pre + "conf_int")]}
    raise core.HarnessError("result without effect: %r" % r)


def documented(dd, est, df, a, kw):
    df = df.copy()
    if est == "DifferenceInDifferences":
        r = dd.DifferenceInDifferences().fit(df, outcome="outcome", treatment="treated", time="post", **kw)
    elif est == "TwoWayFixedEffects":
        r = dd.TwoWayFixedEffects().fit(df, outcome="outcome", treatment="treated", time="post", unit="unit", **kw)
    elif est == "MultiPeriodDiD":
        r = dd.MultiPeriodDiD().fit(df, outcome="outcome", treatment="treated", time="period", post_periods=list(range(a["treatment_period"], a["n_periods"])), **kw)
    else:
        if "first_treat" not in df:
            df["first_treat"] = np.where(df["treated"] == 1, a["treatment_period"], 0)
        r = dd.CallawaySantAnna().fit(df, outcome="outcome", unit="unit", time="period", first_treat="first_treat", **kw)
    return pick(r)
