"""Adapters for every resampling procedure of the library (P09, P10).

Each adapter knows how to run the procedure, which replicates the result
exposes, what the reported inference must be as a function of them, and how one
replicate follows from the recorded random draws.
"""
import copy
import math

import numpy as np
import pandas as pd
from scipy import stats

from . import data as D
from . import lib, ops, rngseam, seam, tracer

FAMS = ["sdid_b", "sdid_p", "sa", "trop_tb", "trop_jb", "trop_tj", "trop_jj", "perm", "loo"]
HELPERS = ["compute_sdid_estimator", "compute_synthetic_weights", "compute_time_weights", "_sdid_unit_weights", "_sdid_time_weights"]


def install_helpers():
    """Count and fault the SDID building blocks like numerical kernels (SDID itself calls no LAPACK routine)."""
    import sys
    mods = [m for n, m in sys.modules.items() if n == "diff_diff" or n.startswith("diff_diff.")]
    for h in HELPERS:
        objs = {id(getattr(m, h)): getattr(m, h) for m in mods if callable(getattr(m, h, None))}
        for fn in objs.values():
            w = seam._wrap("dd." + h, fn)
            for m in mods:
                if getattr(m, h, None) is fn:
                    setattr(m, h, w)


# ---------------------------------------------------------------- generation
def gen(rng, fam):
    seed = rng.randint(0, 9999)
    fit, params = {}, {}
    s = {"seed": rng.randint(0, 10 ** 6), "sd": rng.choice([0.3, 1.0]), "eff": rng.choice([0.0, 0.5, 2.0]), "labels": "str"}
    if rng.random() < 0.3:
        s["shuffle"] = rng.choice([1, 2])
    if rng.random() < 0.3:
        s["index"] = rng.choice(["offset", "str"])
    alpha = rng.choice([0.05, 0.1])
    if fam.startswith("sdid"):
        T = rng.randint(6, 8)
        s.update(kind="factor", n=rng.randint(9, 16), T=T, t0=T - rng.choice([2, 3]), ntr=rng.choice([1, 2, 3]), rank=1, tbase=rng.choice([0, 1990]))
        params = {"lambda_reg": rng.choice([0.0, 0.5]), "zeta": rng.choice([1.0, 0.5]), "alpha": alpha,
                  "variance_method": "bootstrap" if fam == "sdid_b" else "placebo", "n_bootstrap": rng.choice([2, 8, 15, 30]), "seed": seed}
        fit = {"covariates": None}
        op = "sdid"
    elif fam == "sa":
        T = rng.randint(4, 6)
        s.update(kind="stag", n=rng.randint(24, 36), T=T, cohorts=sorted(rng.sample(range(2, T), rng.choice([1, 2]))), tbase=rng.choice([1, 2000]), never=0.4)
        params = {"control_group": rng.choice(["never_treated", "not_yet_treated"]), "anticipation": rng.choice([0, 0, 1]), "alpha": alpha,
                  "cluster": rng.choice([None, None, "cl"]), "n_bootstrap": rng.choice([2, 6, 9]), "seed": seed, "rank_deficient_action": "silent"}
        fit = {"covariates": rng.choice([None, None, ["x1"]])}
        op = "sa"
    elif fam.startswith("trop"):
        T = rng.randint(5, 7)
        s.update(kind="factor", n=rng.randint(8, 11), T=T, t0=T - rng.choice([1, 2]), ntr=rng.choice([2, 2, 3, 1]), rank=1, tbase=rng.choice([0, 1990]))
        params = {"method": "twostep" if fam[5] == "t" else "joint", "lambda_time_grid": [rng.choice([0.0, 0.3, 1.0])],
                  "lambda_unit_grid": [rng.choice([0.0, 0.4, 1.0])], "lambda_nn_grid": [rng.choice([0.05, 0.3, 1.0, math.inf])],
                  "max_iter": rng.choice([8, 20]), "tol": 1e-6, "alpha": alpha, "variance_method": "bootstrap" if fam[6] == "b" else "jackknife",
                  "n_bootstrap": rng.choice([2, 5, 12]), "max_loocv_samples": 3, "seed": seed}
        op = "trop"
    else:
        T = rng.choice([2, 4])
        s.update(kind="did", n=rng.randint(10, 18), T=T, t0=T // 2, ntr=rng.choice([2, 4, 5]))
        fit = {"nb": rng.choice([2, 10, 25]), "seed": seed, "robust": rng.random() < 0.6, "alpha": alpha}
        op = fam
    return {"fam": op, "params": params, "data": s, "fit": fit}


def call(op, df, params=None):
    """Run the procedure; -> (result, point estimate)."""
    import diff_diff as dd
    f = op["fam"]
    if f in ops.EST:
        o = copy.deepcopy(op)
        if params:
            o["params"].update(params)
        return ops.EST[f][4](ops.build(o), df, o["fit"])
    a = op["fit"]
    kw = {"robust": a["robust"]}
    if f == "perm":
        return dd.permutation_test(df, "y", "treated", "post", "unit", n_permutations=a["nb"], alpha=a["alpha"], seed=a["seed"], **kw)
    return dd.leave_one_out_test(df, "y", "treated", "post", "unit", alpha=a["alpha"], **kw)


def point(op, r):
    return {"sdid": lambda: r.att, "sa": lambda: r.overall_att, "trop": lambda: r.att}.get(op["fam"], lambda: r.original_effect)()


def survivors(op, r):
    f = op["fam"]
    if f == "sdid":
        v = r.placebo_effects
    elif f == "sa":
        v = r.bootstrap_results.bootstrap_distribution
    elif f == "trop":
        v = r.bootstrap_distribution
    elif f == "perm":
        v = r.permutation_distribution
    else:
        v = list(r.leave_one_out_effects.values())
    v = [] if v is None else [float(x) for x in np.asarray(v, dtype=float).ravel()]
    return [x for x in v if not math.isnan(x)]


def requested(op, df):
    f = op["fam"]
    if f == "loo" or (f == "trop" and op["params"]["variance_method"] == "jackknife"):
        col = "treated" if f == "loo" else "d"
        return int(df.loc[df[col] == 1, "unit"].nunique())
    return op["fit"]["nb"] if f == "perm" else op["params"]["n_bootstrap"]


# ----------------------------------------------------------------- inference
def _close(a, b, tol=1e-7):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def _share(cond_vals, ref, tol=1e-9):
    """Range of the share of |v| >= |ref|, ties decided either way."""
    n = len(cond_vals)
    lo = sum(abs(v) > abs(ref) + tol * (1 + abs(ref)) for v in cond_vals) / n
    hi = sum(abs(v) >= abs(ref) - tol * (1 + abs(ref)) for v in cond_vals) / n
    return lo, hi


def _opposite(vals, ref, tol=1e-12):
    n = len(vals)
    lo = sum((v < -tol) if ref >= 0 else (v > tol) for v in vals) / n
    hi = sum((v <= tol) if ref >= 0 else (v >= -tol) for v in vals) / n
    return min(2 * lo, 1.0), min(2 * hi, 1.0)


def summary(op, r):
    """Reported inference: point, se, t, p, ci, alpha, df for the t distribution."""
    f = op["fam"]
    if f == "sa":
        return {"pt": r.overall_att, "se": r.overall_se, "t": r.overall_t_stat, "p": r.overall_p_value, "ci": list(r.overall_conf_int)}
    if f in ("perm", "loo"):
        return {"pt": r.placebo_effect, "orig": r.original_effect, "se": r.se, "t": r.t_stat, "p": r.p_value, "ci": list(r.conf_int)}
    out = {"pt": r.att, "se": r.se, "t": r.t_stat, "p": r.p_value, "ci": list(r.conf_int)}
    if f == "trop":
        out["df"] = max(1, r.n_treated_obs - 1)
    return out


def inference(op, s, surv):
    """Messages for every reported number that does not follow from the exposed replicates."""
    f, n = op["fam"], len(surv)
    alpha = op["params"].get("alpha", op["fit"].get("alpha"))
    out = []
    x = np.asarray(surv, dtype=float)
    sd = float(np.std(x, ddof=1)) if n >= 2 else float("nan")
    jack = f == "trop" and op["params"]["variance_method"] == "jackknife"
    if n < 2:
        # nothing to measure dispersion with: inference must be undefined
        if f == "perm":
            return out
        if s["se"] > 0:
            out.append("SE %r from %d replicates" % (s["se"], n))
        for k in ("t", "p"):
            if not math.isnan(s[k]):
                out.append("%s=%r although only %d replicate(s) survive" % (k, s[k], n))
        if not all(math.isnan(v) for v in s["ci"]):
            out.append("interval %r although only %d replicate(s) survive" % (s["ci"], n))
        return out
    se = sd
    if f == "sdid" and op["params"]["variance_method"] == "placebo":
        se = math.sqrt((n - 1) / n) * sd
    if jack:
        se = math.sqrt((n - 1) / n * float(np.sum((x - x.mean()) ** 2)))
    if not _close(s["se"], se):
        out.append("SE is %r, the %d surviving replicates give %r" % (s["se"], n, se))
        return out
    if f in ("perm", "loo") and not _close(s["pt"], x.mean()):
        out.append("mean effect is %r, replicates give %r" % (s["pt"], float(x.mean())))
    if se < 1e-12:
        return out
    base = s["orig"] if f == "perm" else s["pt"]
    if not _close(s["t"], base / se):
        out.append("t is %r, expected %r" % (s["t"], base / se))
    floor = 1.0 / (n + 1)
    lohi = None
    if f == "perm" or (f == "sdid" and op["params"]["variance_method"] == "placebo"):
        lohi = _share(surv, base)
    elif f == "sa":
        lohi = _opposite(surv, base)
    if lohi:
        lo, hi = max(lohi[0], floor), max(lohi[1], floor)
    elif f == "loo":
        lo = hi = 2 * stats.t.sf(abs(base / se), n - 1)
    elif f == "trop":
        lo = hi = 2 * stats.t.sf(abs(base / se), s["df"])
    else:
        lo = hi = 2 * stats.norm.sf(abs(base / se))
    if not (lo - 1e-7 <= s["p"] <= hi + 1e-7):
        out.append("p-value %r, the replicates give %r..%r (n=%d)" % (s["p"], lo, hi, n))
    if f in ("perm", "sa"):
        ci = [float(np.percentile(x, 100 * alpha / 2)), float(np.percentile(x, 100 * (1 - alpha / 2)))]
    else:
        q = stats.t.ppf(1 - alpha / 2, n - 1) if f == "loo" else stats.norm.ppf(1 - alpha / 2)
        ci = [base - q * se, base + q * se]
    if not all(_close(a, b, 1e-6) for a, b in zip(s["ci"], ci)):
        out.append("interval %r, expected %r" % (s["ci"], ci))
    return out


# ---------------------------------------------------------------- recording
def record(op):
    """Fault-free run in a pristine image, everything the oracles need (picklable)."""
    from . import core
    op = copy.deepcopy(op)

    def go():
        lib.arm_warnings()
        df = D.make(op["data"])
        seam.reset()
        rngseam.reset()
        seam.S.armed = rngseam.S.armed = True
        first = {}

        def handler(code, line):
            if "step" not in first and rngseam.S.draws and rngseam.S.draws[-1][0] == rngseam.S.gens:
                pass
        tracer.start(handler)
        n0 = len(lib._WARN)
        o = {"ok": True}
        try:
            try:
                r = call(op, df)
            except Exception as e:  # noqa: BLE001
                o = {"ok": False, "exc": [type(e).__name__, str(e)[:300]]}
        finally:
            o["lines"] = tracer.stop()
            seam.S.armed = rngseam.S.armed = False
        o["kernels"], o["knames"] = seam.S.count, list(seam.S.names)
        o["draws"] = rngseam.last_generator()
        o["warns"] = [m for _, _, m in lib._WARN[n0:]]
        if o["ok"]:
            o["surv"] = survivors(op, r)
            o["sum"] = summary(op, r)
            o["point"] = float(point(op, r))
            if op["fam"] == "sdid":
                o["uw"] = {k: float(v) for k, v in r.unit_weights.items()}
                o["tw"] = {k: float(v) for k, v in r.time_weights.items()}
            if op["fam"] == "sa":
                o["ev"] = {e: {k: (list(v) if isinstance(v, tuple) else v) for k, v in d.items()} for e, d in r.event_study_effects.items()}
            if op["fam"] == "loo":
                o["loo"] = {str(k): float(v) for k, v in r.leave_one_out_effects.items()}
        seam.reset()
        rngseam.reset()
        return o
    return core.in_child(go)


def base_kernels(op):
    """Kernel calls before the first replicate."""
    o = copy.deepcopy(op)
    if op["fam"] == "loo":
        o["fam"] = "perm"
        o["fit"]["nb"] = 2
    elif op["fam"] == "trop":
        o["params"]["variance_method"] = "bootstrap"
        o["params"]["n_bootstrap"] = 2
    rec = record(o)
    if not rec["draws"]:
        return None
    return rec["draws"][0][3]


def match(ref, got, tol=1e-6):
    """Is `got` an ordered subsequence of `ref`?  -> number of ref values left out, or None."""
    j = 0
    scale = 1 + max([abs(v) for v in ref] or [0])
    for g in got:
        while j < len(ref) and abs(ref[j] - g) > tol * scale:
            j += 1
        if j == len(ref):
            return None
        j += 1
    return len(ref) - len(got)
