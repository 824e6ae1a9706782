"""Catalogue of public operations: how to generate, build and run each of them.

An op is a JSON dict {"fam", "params", "data", "fit"}.  Families with an
estimator object can be refitted; function families are one-shot calls.
"""
import inspect

import numpy as np
import pandas as pd

from . import data as D
from .canon import canon
from .guard import C, L

EST = {}      # fam -> (class name, data kinds, params gen, fit gen, fit fn)
FUN = {}      # fam -> (data kinds, args gen, call)


def _seed(rng):
    x = rng.random()
    if x < 0.10:
        return 0            # a seed like any other, though falsy
    return 2 ** 32 - 1 if x < 0.12 else rng.randint(0, 9999)


def _rda(rng):
    return rng.choice(["warn", "warn", "silent", "error"])


def seq(a, vals):
    """A list argument, as a list or as an array the caller may reuse."""
    return np.array(vals, dtype=float) if a.get("nd") else list(vals)


# ------------------------------------------------------------------ estimators
def p_did(rng):
    return {"robust": rng.random() < 0.7, "cluster": rng.choice([None, None, "cl"]), "alpha": rng.choice([0.05, 0.1]),
            "inference": rng.choice(["analytical", "analytical", "wild_bootstrap"]), "n_bootstrap": rng.randint(19, 40),
            "bootstrap_weights": rng.choice(["rademacher", "webb", "mammen"]), "seed": _seed(rng),
            "rank_deficient_action": rng.choice(["warn", "silent"])}


def fix_did(p):
    if p["inference"] == "wild_bootstrap" and p["cluster"] is None:
        p["cluster"] = "cl"
    return p


def f_did(rng):
    x = rng.random()
    if x < 0.2:
        return {"formula": rng.choice(["y ~ treated * post", "y ~ treated * post + x1", "y ~ treated + post + treated:post + x1"])}
    return {"covariates": rng.choice([None, None, ["x1"], ["x1", "x2"]]),
            "fixed_effects": rng.choice([None, None, ["grp"]]), "absorb": rng.choice([None, None, ["unit"]])}


def fit_did(est, df, a):
    if "formula" in a:
        return C(est.fit, df, formula=a["formula"])
    return C(est.fit, df, outcome="y", treatment="treated", time="post", covariates=a.get("covariates"),
                   fixed_effects=a.get("fixed_effects"), absorb=a.get("absorb"))


def fit_twfe(est, df, a):
    return C(est.fit, df, outcome="y", treatment="treated", time="post", unit="unit", covariates=a.get("covariates"))


def fit_mp(est, df, a):
    kw = {}
    times = sorted(df["time"].unique().tolist())
    k = a.get("npost", 2)
    post = times[-k:]
    if a.get("ref_first"):
        kw["reference_period"] = times[0]
    return C(est.fit, df, outcome="y", treatment="treated", time="time", post_periods=post, covariates=a.get("covariates"),
                   absorb=a.get("absorb"), **kw)


def p_mp(rng):
    p = p_did(rng)
    p["inference"] = "analytical"
    return p


def fit_sdid(est, df, a):
    times = sorted(df.loc[df["post"] == 1, "time"].unique().tolist())
    return C(est.fit, df, outcome="y", treatment="treated", unit="unit", time="time", post_periods=times,
                   covariates=a.get("covariates"))


def p_sdid(rng):
    return {"lambda_reg": rng.choice([0.0, 0.5]), "zeta": rng.choice([1.0, 0.5]), "alpha": rng.choice([0.05, 0.1]),
            "variance_method": rng.choice(["bootstrap", "placebo"]), "n_bootstrap": rng.randint(8, 20), "seed": _seed(rng)}


def p_cs(rng):
    return {"control_group": rng.choice(["never_treated", "not_yet_treated"]), "anticipation": rng.choice([0, 0, 1]),
            "estimation_method": rng.choice(["dr", "ipw", "reg"]), "alpha": rng.choice([0.05, 0.1]),
            "n_bootstrap": rng.choice([0, 0, 25, 40]), "bootstrap_weights": rng.choice([None, "rademacher", "mammen", "webb"]),
            "seed": _seed(rng), "rank_deficient_action": rng.choice(["warn", "silent"]),
            "base_period": rng.choice(["varying", "universal"])}


def f_cs(rng):
    return {"covariates": rng.choice([None, None, ["x2"], ["x1", "x2"]]),
            "aggregate": rng.choice([None, "simple", "event_study", "group", "all"]), "balance_e": rng.choice([None, None, 0])}


def fit_stag(est, df, a):
    kw = {k: a[k] for k in ("aggregate", "balance_e") if k in a}
    return C(est.fit, df, outcome="y", unit="unit", time="time", first_treat="first_treat", covariates=a.get("covariates"), **kw)


def p_sa(rng):
    return {"control_group": rng.choice(["never_treated", "not_yet_treated"]), "anticipation": rng.choice([0, 0, 1]),
            "alpha": rng.choice([0.05, 0.1]), "cluster": rng.choice([None, None, "cl"]), "n_bootstrap": rng.choice([0, 0, 8]),
            "seed": _seed(rng), "rank_deficient_action": rng.choice(["warn", "silent"])}


def fit_sa(est, df, a):
    return C(est.fit, df, outcome="y", unit="unit", time="time", first_treat="first_treat", covariates=a.get("covariates"))


def p_ddd(rng):
    return {"estimation_method": rng.choice(["dr", "ipw", "reg"]), "robust": rng.random() < 0.7,
            "cluster": rng.choice([None, None, "cl"]), "alpha": rng.choice([0.05, 0.1]),
            "pscore_trim": rng.choice([0.01, 0.05]), "rank_deficient_action": rng.choice(["warn", "silent"])}


def fit_ddd(est, df, a):
    return C(est.fit, df, outcome="y", group="group", partition="partition", time="time", covariates=a.get("covariates"))


def p_trop(rng):
    return {"method": rng.choice(["twostep", "joint", "joint"]), "lambda_time_grid": rng.choice([[0.0], [0.0, 0.5], [0.1, 1.0]]),
            "lambda_unit_grid": rng.choice([[0.0], [0.0, 0.5], [0.5]]), "lambda_nn_grid": rng.choice([[0.1], [0.0, 0.1], [1.0], [0.1, float("inf")]]),
            "max_iter": rng.choice([10, 25]), "tol": 1e-5, "alpha": rng.choice([0.05, 0.1]),
            "variance_method": rng.choice(["bootstrap", "bootstrap", "jackknife"]), "n_bootstrap": rng.randint(4, 6),
            "max_loocv_samples": rng.choice([4, 8]), "seed": _seed(rng)}


def fit_trop(est, df, a):
    return C(est.fit, df, outcome="y", treatment="d", unit="unit", time="time")


def p_bacon(rng):
    return {"weights": rng.choice(["approximate", "exact"])}


def p_honest(rng):
    return {"method": rng.choice(["smoothness", "relative_magnitude", "combined"]), "M": rng.choice([0.0, 0.5, 1.0]),
            "alpha": rng.choice([0.05, 0.1])}


def p_pre(rng):
    return {"alpha": rng.choice([0.05, 0.1]), "power": rng.choice([0.8, 0.5]),
            "violation_type": rng.choice(["linear", "constant", "last_period"])}


def _mp_results(df, npost=2):
    import diff_diff as dd
    times = sorted(df["time"].unique().tolist())
    return C(dd.MultiPeriodDiD().fit, df, outcome="y", treatment="treated", time="time", post_periods=times[-npost:])


def fit_honest(est, df, a):
    res = _mp_results(df)
    how = a.get("how", "fit")
    if how == "fit":
        return C(est.fit, res)
    if how == "sens":
        return C(est.sensitivity_analysis, res, M_grid=seq(a, [0.0, 0.5, 1.0]))
    return {"breakdown": C(est.breakdown_value, res, tol=0.1)}


def fit_pre(est, df, a):
    res = _mp_results(df, 1)
    times = sorted(df["time"].unique().tolist())
    import diff_diff as dd
    # power against pre-trends needs pre-period coefficients in the results
    res = C(dd.MultiPeriodDiD().fit, df, outcome="y", treatment="treated", time="time", post_periods=times[1:])
    kw = {"pre_periods": times[1:-1]}
    how = a.get("how", "fit")
    if how == "curve":
        return C(est.power_curve, res, M_grid=seq(a, [0.0, 0.5, 1.0]), **kw)
    return C(est.fit, res, M=0.7, **kw)


def p_power(rng):
    return {"alpha": rng.choice([0.05, 0.1]), "power": rng.choice([0.8, 0.9]),
            "alternative": rng.choice(["two-sided", "greater", "less"])}


def fit_power(est, df, a):
    return {"power": C(est.power, a["es"], 40, 60, 1.5, n_pre=2, n_post=3, rho=0.3), "mde": C(est.mde, 40, 60, 1.5, n_pre=2, n_post=3, rho=0.3),
            "n": C(est.sample_size, abs(a["es"]) + 0.1, 1.5, rho=0.2), "curve": C(est.power_curve, 40, 60, 1.5, effect_sizes=seq(a, [0.1, 0.5, 1.0]))}


def p_lr(rng):
    return {"include_intercept": True, "robust": rng.random() < 0.6, "alpha": rng.choice([0.05, 0.1]),
            "rank_deficient_action": rng.choice(["warn", "silent"])}


def fit_lr(est, df, a):
    X = df[["x1", "x2", "treated"]].to_numpy(dtype=float)
    if a.get("dup"):
        X = np.column_stack([X, X[:, 0] * 2.0])
    y = df["y"].to_numpy(dtype=float).copy()
    cl = df["cl"].to_numpy().copy() if a.get("clustered") else None
    C(est.fit, X, y, cluster_ids=cl)
    return {"inf": est.get_all_inference(), "pred": C(est.predict, X), "r2": est.r_squared(), "coef": est.coefficients_,
            "vcov": est.vcov_, "fitted": est.fitted_values_}


EST["did"] = ("DifferenceInDifferences", ["did"], p_did, f_did, fit_did)
EST["twfe"] = ("TwoWayFixedEffects", ["did", "panel"], p_did, lambda r: {"covariates": r.choice([None, ["x1"]])}, fit_twfe)
EST["mp"] = ("MultiPeriodDiD", ["panel"], p_mp, lambda r: {"covariates": r.choice([None, ["x1"]]), "npost": r.choice([1, 2]),
                                                          "absorb": r.choice([None, None, ["unit"]]), "ref_first": r.random() < 0.3}, fit_mp)
EST["sdid"] = ("SyntheticDiD", ["panel", "factor"], p_sdid, lambda r: {"covariates": r.choice([None, None, ["x1"]])}, fit_sdid)
EST["cs"] = ("CallawaySantAnna", ["stag"], p_cs, f_cs, fit_stag)
EST["sa"] = ("SunAbraham", ["stag"], p_sa, lambda r: {"covariates": r.choice([None, None, ["x1"]])}, fit_sa)
EST["ddd"] = ("TripleDifference", ["ddd"], p_ddd, lambda r: {"covariates": r.choice([None, ["x1"], ["x1", "x2"]])}, fit_ddd)
EST["trop"] = ("TROP", ["factor"], p_trop, lambda r: {}, fit_trop)
EST["bacon"] = ("BaconDecomposition", ["stag"], p_bacon, lambda r: {}, lambda est, df, a: C(est.fit, 
    df, outcome="y", unit="unit", time="time", first_treat="first_treat"))
EST["honest"] = ("HonestDiD", ["panel"], p_honest, lambda r: {"how": r.choice(["fit", "sens", "bd"]), "nd": r.random() < 0.4}, fit_honest)
EST["pretrends"] = ("PreTrendsPower", ["panel"], p_pre, lambda r: {"how": r.choice(["fit", "curve"]), "nd": r.random() < 0.4}, fit_pre)
EST["power"] = ("PowerAnalysis", ["did"], p_power, lambda r: {"es": r.choice([0.3, 1.0, -0.5]), "nd": r.random() < 0.4}, fit_power)
EST["linreg"] = ("LinearRegression", ["panel", "did"], p_lr, lambda r: {"dup": r.random() < 0.3, "clustered": r.random() < 0.4}, fit_lr)

# ------------------------------------------------------------------- functions


def c_wild(dd, df, a):
    X = np.column_stack([np.ones(len(df)), df["treated"], df["post"], df["treated"] * df["post"]]).astype(float)
    y = df["y"].to_numpy(dtype=float).copy()
    beta, *_ = np.linalg.lstsq(X, y, rcond=None)
    return C(dd.wild_bootstrap_se, X, y, y - X @ beta, df["cl"].to_numpy().copy(), 3, n_bootstrap=a["nb"], weight_type=a["w"],
                                seed=a["seed"], return_distribution=True)


def c_perm(dd, df, a):
    return C(dd.permutation_test, df, "y", "treated", "post", "unit", n_permutations=a["nb"], seed=a["seed"])


def c_loo(dd, df, a):
    return C(dd.leave_one_out_test, df, "y", "treated", "post", "unit")


def c_suite(dd, df, a):
    t = sorted(df["time"].unique().tolist())
    k = int(df.loc[df["post"] == 1, "time"].nunique())
    return C(dd.run_all_placebo_tests, df, "y", "treated", "time", "unit", pre_periods=t[:-k], post_periods=t[-k:],
                                    n_permutations=a["nb"], seed=a["seed"])


def c_timing(dd, df, a):
    t = sorted(df["time"].unique().tolist())
    k = int(df.loc[df["post"] == 1, "time"].nunique())
    return C(dd.placebo_timing_test, df, "y", "treated", "time", t[1], post_periods=t[-k:])


def c_group(dd, df, a):
    u = df.loc[df["treated"] == 0, "unit"].unique().tolist()
    return C(dd.placebo_group_test, df, "y", "time", "unit", sorted(u)[:2], post_periods=sorted(df["time"].unique().tolist())[-2:])


def c_simpow(dd, df, a):
    est = dd.DifferenceInDifferences() if a["est"] == "did" else dd.TwoWayFixedEffects()
    return C(dd.simulate_power, est, n_units=a["n"], n_periods=4, n_simulations=a["nb"], seed=a["seed"], treatment_effect=1.0,
                             effect_sizes=a.get("es") and seq(a, a["es"]), progress=False)


def c_pt(dd, df, a):
    pre = sorted(df.loc[df["post"] == 0, "time"].unique().tolist())
    return C(dd.check_parallel_trends, df, "y", "time", "treated", pre_periods=pre)


def c_ptr(dd, df, a):
    pre = sorted(df.loc[df["post"] == 0, "time"].unique().tolist())
    return C(dd.check_parallel_trends_robust, df, "y", "time", "treated", unit="unit", pre_periods=pre, n_permutations=a["nb"], seed=a["seed"])


def c_eq(dd, df, a):
    pre = sorted(df.loc[df["post"] == 0, "time"].unique().tolist())
    return C(dd.equivalence_test_trends, df, "y", "time", "treated", unit="unit", pre_periods=pre)


def c_prep(dd, df, a):
    out = {}
    out["mti"] = C(dd.make_treatment_indicator, df, "x1", threshold=0.1, new_column="hi")
    out["mpi"] = C(dd.make_post_indicator, df, "time", treatment_start=sorted(df["time"].unique().tolist())[1], new_column="po2")
    cut = df[~((df["unit"] == df["unit"].iloc[0]) & (df["time"] == df["time"].iloc[0]))]
    out["bal"] = C(dd.balance_panel, cut, "unit", "time", method=a["how"], fill_value=0.0 if a["how"] == "fill" else None)
    out["val"] = C(dd.validate_did_data, df, "y", "treated", "post", unit="unit", raise_on_error=False)
    out["sum"] = C(dd.summarize_did_data, df, "y", "treated", "post", unit="unit")
    wide = df.pivot(index="unit", columns="time", values="y")
    wide.columns = ["y_%s" % c for c in wide.columns]
    wide = wide.reset_index()
    out["w2l"] = C(dd.wide_to_long, wide, [c for c in wide.columns if c != "unit"], "unit")
    return out


def c_rank(dd, df, a):
    return C(dd.rank_control_units, df, "unit", "time", "y", treatment_column="treated", covariates=a["cov"],
                                 pre_periods=sorted(df.loc[df["post"] == 0, "time"].unique().tolist()), lambda_reg=0.1)


def c_stagprep(dd, df, a):
    tmp = df.copy()
    if not np.issubdtype(tmp["first_treat"].dtype, np.integer):
        tmp["first_treat"] = tmp["first_treat"].replace(np.inf, 0).astype(int)
    return {"ev": C(dd.create_event_time, tmp, "time", "first_treat"), "coh": C(dd.aggregate_to_cohorts, df, "unit", "time", "d", "y", covariates=["x1"]),
            "bacon": C(dd.bacon_decompose, df, "y", "unit", "time", "first_treat")}


def c_gen(dd, df, a):
    s = a["seed"]
    return {"did": C(dd.generate_did_data, n_units=8, seed=s), "stag": C(dd.generate_staggered_data, n_units=9, n_periods=6, seed=s),
            "fac": C(dd.generate_factor_data, n_units=8, n_pre=4, n_post=2, n_treated=2, seed=s),
            "ddd": C(dd.generate_ddd_data, n_per_cell=4, add_covariates=True, seed=s),
            "pan": C(dd.generate_panel_data, n_units=6, n_periods=5, parallel_trends=False, seed=s),
            "ev": C(dd.generate_event_study_data, n_units=8, n_pre=2, n_post=2, seed=s)}


def c_conv(dd, df, a):
    if "first_treat" in df:
        return C(dd.bacon_decompose, df, "y", "unit", "time", "first_treat", weights="exact")
    if "partition" in df:
        return C(dd.triple_difference, df, "y", "group", "partition", "time", covariates=["x1"], estimation_method=a["m"])
    return {"mde": C(dd.compute_mde, 30, 40, 1.0), "pow": C(dd.compute_power, 0.4, 30, 40, 1.0), "n": C(dd.compute_sample_size, 0.4, 1.0)}


def c_plot(dd, df, a):
    import matplotlib.pyplot as plt
    fig, ax = plt.subplots()
    try:
        if "first_treat" in df:
            r = C(dd.CallawaySantAnna().fit, df, outcome="y", unit="unit", time="time", first_treat="first_treat", aggregate="all")
            C(dd.plot_event_study, r, ax=ax, show=False)
            C(dd.plot_group_effects, r, ax=ax, show=False)
            C(dd.plot_bacon, C(dd.bacon_decompose, df, "y", "unit", "time", "first_treat"), ax=ax, show=False)
        else:
            r = _mp_results(df)
            C(dd.plot_event_study, r, ax=ax, show=False)
            h = dd.HonestDiD(method="relative_magnitude", M=0.5)
            C(dd.plot_sensitivity, h.sensitivity_analysis(r, M_grid=[0.0, 0.5]), ax=ax, show=False)
            C(dd.plot_honest_event_study, h.fit(r), ax=ax, show=False)
        out = [[float(v) for v in np.asarray(ln.get_xdata(), dtype=float)] + [float(v) for v in np.asarray(ln.get_ydata(), dtype=float)]
               for ln in ax.get_lines()]
    finally:
        plt.close(fig)
    return out


def c_honest_fn(dd, df, a):
    r = _mp_results(df)
    return {"h": C(dd.compute_honest_did, r, method=a["m"], M=0.5)}


FUN["wild"] = (["did", "panel"], lambda r: {"nb": r.randint(19, 40), "w": r.choice(["rademacher", "webb", "mammen"]), "seed": _seed(r)}, c_wild)
FUN["perm"] = (["did"], lambda r: {"nb": r.randint(10, 20), "seed": _seed(r)}, c_perm)
FUN["loo"] = (["did"], lambda r: {}, c_loo)
FUN["suite"] = (["panel"], lambda r: {"nb": r.randint(5, 10), "seed": _seed(r)}, c_suite)
FUN["timing"] = (["panel"], lambda r: {}, c_timing)
FUN["group"] = (["panel"], lambda r: {}, c_group)
FUN["simpow"] = (["did"], lambda r: {"est": r.choice(["did", "twfe"]), "n": r.randint(10, 16), "nb": r.randint(4, 8), "seed": _seed(r),
                                     "es": r.choice([None, [0.5, 1.0]]), "nd": r.random() < 0.4}, c_simpow)
FUN["pt"] = (["panel"], lambda r: {}, c_pt)
FUN["ptr"] = (["panel"], lambda r: {"nb": r.randint(20, 60), "seed": _seed(r)}, c_ptr)
FUN["eq"] = (["panel"], lambda r: {}, c_eq)
FUN["prep"] = (["panel"], lambda r: {"how": r.choice(["inner", "outer", "fill"])}, c_prep)
FUN["rank"] = (["panel", "factor"], lambda r: {"cov": r.choice([None, ["x1"]])}, c_rank)
FUN["stagprep"] = (["stag"], lambda r: {}, c_stagprep)
FUN["gen"] = (["did"], lambda r: {"seed": _seed(r)}, c_gen)
FUN["conv"] = (["stag", "ddd", "did"], lambda r: {"m": r.choice(["dr", "ipw", "reg"])}, c_conv)
FUN["plot"] = (["stag", "panel"], lambda r: {}, c_plot)
FUN["honestfn"] = (["panel"], lambda r: {"m": r.choice(["smoothness", "relative_magnitude"])}, c_honest_fn)


# ------------------------------------------------------- wider public surface
def _stag_kw(df):
    return dict(outcome="y", unit="unit", time="time", first_treat="first_treat")


def _artists(ax):
    out = [[np.asarray(ln.get_xdata(), dtype=object).tolist(), np.asarray(ln.get_ydata(), dtype=object).tolist()] for ln in ax.get_lines()]
    out += [[np.asarray(c.get_offsets(), dtype=float).tolist(), [np.asarray(p.vertices, dtype=float).tolist() for p in c.get_paths()][:3]]
            for c in ax.collections]
    out += [[float(p.get_x()), float(p.get_y()), float(p.get_width()), float(p.get_height())] for p in ax.patches if hasattr(p, "get_width")]
    out += [ax.get_title(), ax.get_xlabel(), ax.get_ylabel()]
    out += [[t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else None]
    return out


def c_plotx(dd, df, a):
    import matplotlib.pyplot as plt
    v = a["v"]
    open_before = set(plt.get_fignums())
    out = None
    fig = None
    try:
        ax = None
        if a.get("own"):
            fig, ax = plt.subplots()
            if open_before:         # somebody else's figure is the current one
                plt.figure(max(open_before))
        kw = dict(ax=ax, show=bool(a.get("show")))
        if "first_treat" in df:
            if v == "sa":
                ax = C(dd.plot_event_study, C(dd.SunAbraham(alpha=0.1).fit, df, **_stag_kw(df)), title="T", **kw)
            elif v == "csref":
                r = C(dd.CallawaySantAnna(anticipation=1).fit, df, aggregate="event_study", **_stag_kw(df))
                ax = C(dd.plot_event_study, r, reference_period=-1, shade_pre=False, **kw)
            elif v == "group":
                r = C(dd.CallawaySantAnna().fit, df, aggregate="group", **_stag_kw(df))
                g = sorted({k[0] for k in r.group_time_effects})
                ax = C(dd.plot_group_effects, r, groups=g[:1], **kw)
            elif v == "bar":
                ax = C(dd.plot_bacon, C(dd.bacon_decompose, df, "y", "unit", "time", "first_treat"), plot_type="bar", **kw)
            elif v == "scatter":
                ax = C(dd.plot_bacon, C(dd.bacon_decompose, df, "y", "unit", "time", "first_treat"), title="B",
                       colors={"treated_vs_never": "r", "earlier_vs_later": "g", "later_vs_earlier": "b"}, **kw)
            else:
                r = C(dd.CallawaySantAnna().fit, df, aggregate="event_study", **_stag_kw(df))
                h = C(dd.compute_honest_did, r, method="relative_magnitude", M=0.5)
                ax = C(dd.plot_honest_event_study, h, **kw)
        else:
            t = sorted(df["time"].unique().tolist())
            if v == "sens":
                r = _mp_results(df)
                s = C(dd.HonestDiD(method="relative_magnitude").sensitivity_analysis, r, M_grid=[0.0, 0.5, 1.0])
                ax = C(s.plot, ax=ax)
            elif v == "splot":
                ax = C(dd.sensitivity_plot, _mp_results(df), M_grid=[0.0, 0.5, 1.0], ax=ax)
            elif v == "dict":
                ax = C(dd.plot_event_study, effects={p: 0.1 * p for p in range(-2, 3)}, se={p: 0.2 for p in range(-2, 3)},
                       periods=[-2, -1, 0, 1, 2], reference_period=-1, pre_periods=[-2, -1], post_periods=[0, 1, 2], **kw)
            elif v == "frame":
                fr = pd.DataFrame({"period": [-2, -1, 0, 1], "effect": [0.1, 0.0, 1.0, 1.2], "se": [0.2, np.nan, 0.2, 0.3]})
                ax = C(dd.plot_event_study, fr, reference_period=-1, **kw)
            elif v == "mpref":
                r = _mp_results(df)
                ax = C(dd.plot_event_study, r, reference_period=t[0], periods=list(r.period_effects), **kw)
            elif v == "power":
                pa = dd.PowerAnalysis()
                cv = C(pa.power_curve, 40, 60, 1.5, effect_sizes=[0.1, 0.5, 1.0])
                ax = C(dd.plot_power_curve, cv, mde=0.5, **kw)
            elif v == "powern":
                pa = dd.PowerAnalysis()
                ax = C(dd.plot_power_curve, C(pa.sample_size_curve, 0.5, 1.5, sample_sizes=[20, 40, 80]), plot_type="sample", **kw)
            elif v == "powerl":
                ax = C(dd.plot_power_curve, effect_sizes=[0.1, 0.5, 1.0], powers=[0.1, 0.5, 0.9], **kw)
            elif v == "pre":
                r = C(dd.MultiPeriodDiD().fit, df, outcome="y", treatment="treated", time="time", post_periods=t[1:])
                p = C(dd.PreTrendsPower().power_curve, r, M_grid=[0.0, 0.5, 1.0], pre_periods=t[1:-1])
                ax = C(dd.plot_pretrends_power, p, **kw)
            elif v == "pres":
                r = C(dd.MultiPeriodDiD().fit, df, outcome="y", treatment="treated", time="time", post_periods=t[1:])
                p = C(dd.PreTrendsPower().fit, r, pre_periods=t[1:-1])
                ax = C(dd.plot_pretrends_power, p, **kw)
            elif v == "prec":
                r = C(dd.MultiPeriodDiD().fit, df, outcome="y", treatment="treated", time="time", post_periods=t[1:])
                p = C(dd.PreTrendsPower().power_curve, r, n_points=8, pre_periods=t[1:-1])
                ax = C(p.plot, ax=ax)
            else:
                ax = C(dd.plot_pretrends_power, M_values=[0.0, 1.0], powers=[0.05, 0.6], mdv=0.8, **kw)
        out = _artists(ax)
        fig = ax.get_figure()
    finally:
        if fig is not None:
            plt.close(fig)
        else:
            for n in set(plt.get_fignums()) - open_before:
                plt.close(n)
    return out


def c_honestx(dd, df, a):
    if "first_treat" in df:
        r = C(dd.CallawaySantAnna().fit, df, aggregate="event_study", **_stag_kw(df))
    else:
        r = _mp_results(df, a.get("npost", 2))
    h = dd.HonestDiD(method=a["m"], M=a["M"], l_vec=None)
    out = {"fit": C(h.fit, r), "sens": C(h.sensitivity_analysis, r, M_grid=None if a.get("dg") else seq(a, [0.0, 0.4, 0.8]))}
    if a.get("bd"):
        out["bd"] = C(h.breakdown_value, r, tol=0.2)
    out["deltas"] = [repr(dd.DeltaSD(0.5)), repr(dd.DeltaRM(1.0)), repr(dd.DeltaSDRM(0.5, 1.0))]
    return out


def c_prex(dd, df, a):
    if "first_treat" in df:
        if a.get("sa"):
            r = C(dd.SunAbraham().fit, df, **_stag_kw(df))
        else:
            r = C(dd.CallawaySantAnna(base_period="universal").fit, df, aggregate="event_study", **_stag_kw(df))
        kw = {}
    else:
        t = sorted(df["time"].unique().tolist())
        r = C(dd.MultiPeriodDiD().fit, df, outcome="y", treatment="treated", time="time", post_periods=t[1:])
        kw = {"pre_periods": t[1:-1]}
    out = {"p": C(dd.compute_pretrends_power, r, violation_type=a["vt"], **kw), "mdv": C(dd.compute_mdv, r, violation_type=a["vt"], **kw)}
    p = dd.PreTrendsPower(violation_type=a["vt"], alpha=0.1)
    out["at"] = C(p.power_at, r, 0.4, **kw)
    out["sh"] = C(p.sensitivity_to_honest_did, r, **kw)
    out["curve"] = C(p.power_curve, r, n_points=6, **kw)
    n = out["p"].n_pre_periods
    w = np.arange(1.0, n + 1)
    pc = C(dd.PreTrendsPower, violation_type="custom", violation_weights=w)
    out["custom"] = C(pc.fit, r, M=0.3, **kw)
    return out


def c_prepx(dd, df, a):
    out = {}
    v = a["v"]
    t = sorted(df["time"].unique().tolist())
    u = df["unit"].unique().tolist()
    if v == "ind":
        out["a"] = C(dd.make_treatment_indicator, df, "unit", treated_values=u[:3])
        out["b"] = C(dd.make_treatment_indicator, df, "unit", treated_values=u[0], new_column="t1")
        out["c"] = C(dd.make_treatment_indicator, df, "x1", threshold=0.0, above_threshold=False)
        out["d"] = C(dd.make_post_indicator, df, "time", post_periods=t[-2:])
        out["e"] = C(dd.make_post_indicator, df, "time", post_periods=t[-1])
    elif v == "bal":
        cut = df.iloc[[i for i in range(len(df)) if i % 7 != 3]]
        out["a"] = C(dd.balance_panel, cut, "unit", "time", method="inner")
        out["b"] = C(dd.balance_panel, cut, "unit", "time", method="outer")
        out["c"] = C(dd.balance_panel, cut, "unit", "time", method="fill")
        out["d"] = C(dd.balance_panel, cut[["unit", "time", "y"]], "unit", "time", method="fill", fill_value=1.5)
    elif v == "val":
        bad = df.copy()
        bad.loc[bad.index[:2], "y"] = np.nan
        out["a"] = C(dd.validate_did_data, bad, "y", "treated", "time", unit="unit", raise_on_error=False)
        out["b"] = C(dd.validate_did_data, bad.assign(y="a"), "y", "treated", "post", raise_on_error=False)
        out["c"] = C(dd.validate_did_data, bad, "y", "nope", "post", raise_on_error=False)
        try:
            C(dd.validate_did_data, bad.assign(treated=2), "y", "treated", "post", unit="unit")
        except ValueError as e:
            out["d"] = str(e)
        out["e"] = C(dd.summarize_did_data, df, "y", "treated", "time", unit="unit")
    elif v == "rank":
        ctl = df.loc[df["treated"] == 0, "unit"].unique().tolist()
        trt = df.loc[df["treated"] == 1, "unit"].unique().tolist()
        out["a"] = C(dd.rank_control_units, df, "unit", "time", "y", treated_units=trt, exclude_units=ctl[:1], require_units=ctl[1:2],
                     n_top=3, covariates=["x1"], outcome_weight=0.5, covariate_weight=0.5)
        out["b"] = C(dd.rank_control_units, df, "unit", "time", "y", suggest_treatment_candidates=True, n_treatment_candidates=3)
        out["c"] = C(dd.rank_control_units, df, "unit", "time", "y", treatment_column="treated", pre_periods=t[:2], outcome_weight=0.0, covariate_weight=0.0)
    elif v == "wide":
        wide = df.pivot(index="unit", columns="time", values="y")
        wide.columns = ["y_%s" % c for c in wide.columns]
        wide = wide.reset_index()
        cols = [c for c in wide.columns if c != "unit"]
        out["a"] = C(dd.wide_to_long, wide, cols, "unit", time_name="time", value_name="y", time_values=list(t))
        out["b"] = C(dd.wide_to_long, wide.assign(extra=1), cols[:2], "unit")
    return out


def c_placebo(dd, df, a):
    t = sorted(df["time"].unique().tolist())
    k = int(df.loc[df["post"] == 1, "time"].nunique())
    ek = {"robust": bool(a.get("robust", True))}
    if a["tt"] == "fake_timing":
        return C(dd.run_placebo_test, df, "y", "treated", "time", unit="unit", test_type="fake_timing", fake_treatment_period=t[1],
                 post_periods=t[-k:], **ek)
    if a["tt"] == "fake_group":
        u = sorted(df.loc[df["treated"] == 0, "unit"].unique().tolist())
        return C(dd.run_placebo_test, df, "y", "treated", "time", unit="unit", test_type="fake_group", fake_treatment_group=u[:3],
                 post_periods=t[-k:], **ek)
    if a["tt"] == "permutation":
        return C(dd.run_placebo_test, df, "y", "treated", "post", unit="unit", test_type="permutation", n_permutations=a["nb"], seed=a["seed"], **ek)
    return C(dd.run_placebo_test, df, "y", "treated", "post", unit="unit", test_type="leave_one_out", **ek)


def _mygen(**k):
    import diff_diff as dd
    s = int(k.pop("seed"))
    return dd.generate_did_data(seed=s, **k)


def c_powerx(dd, df, a):
    v = a["v"]
    if v == "curve":
        pa = dd.PowerAnalysis(alternative=a["alt"])
        return {"sc": C(pa.sample_size_curve, 0.5, 1.5), "pc": C(pa.power_curve, 30, 30, 1.0), "p": C(pa.power, 0.5, 30, 30, 1.0),
                "m": C(pa.mde, 30, 30, 1.0), "n": C(pa.sample_size, 0.5, 1.0, n_pre=2, n_post=2, treat_frac=0.3)}
    kw = dict(n_units=a["n"], n_periods=4, n_simulations=a["nb"], seed=a["seed"], treatment_effect=1.0, progress=bool(a.get("prog")))
    if v == "mp":
        return C(dd.simulate_power, dd.MultiPeriodDiD(), **kw)
    if v == "twfe":
        return C(dd.simulate_power, dd.TwoWayFixedEffects(), effect_sizes=seq(a, [0.0, 1.0, 2.0]), **kw)
    if v == "cov":
        return C(dd.simulate_power, dd.DifferenceInDifferences(robust=False), estimator_kwargs={"fixed_effects": None},
                 data_generator=_mygen, data_generator_kwargs={"unit_fe_sd": 1.0}, **kw)
    if v == "cs":
        return C(dd.simulate_power, dd.CallawaySantAnna(), **kw)
    est = dd.DifferenceInDifferences(inference="wild_bootstrap", cluster="unit", n_bootstrap=19, seed=3)
    return C(dd.simulate_power, est, **kw)


def c_lin(dd, df, a):
    from diff_diff import linalg as L
    X = np.column_stack([np.ones(len(df)), df["x1"], df["treated"], df["post"]]).astype(float)
    if a.get("dup"):
        X = np.column_stack([X, X[:, 1] - X[:, 2]])
    y = df["y"].to_numpy(dtype=float).copy()
    cl = df["cl"].to_numpy().copy() if a.get("cl") else None
    coef, res, v = C(L.solve_ols, X, y, cluster_ids=cl, rank_deficient_action="silent")[:3]
    out = {"c": coef, "r": res, "v": v}
    if not a.get("dup"):
        out["v2"] = C(L.compute_robust_vcov, X, res.copy(), cl)
    lr = dd.LinearRegression(include_intercept=bool(a.get("int", True)), robust=False)
    C(lr.fit, X[:, 1:3].copy(), y)
    out["i"] = lr.get_inference(1)
    out["b"] = lr.get_inference_batch([0, 1])
    out["g"] = [lr.get_coefficient(0), lr.get_se(0), lr.r_squared(adjusted=True), C(lr.predict, X[:, 1:3].copy())]
    return out


def c_utilx(dd, df, a):
    """The documented helpers of diff_diff.utils and linalg, called directly."""
    from diff_diff import utils as U
    from diff_diff import linalg as LA
    cols = ["y", "x1"]
    out = {"dm": C(U.demean_by_group, df, cols, "unit", suffix=a["sfx"]), "wt": C(U.within_transform, df, cols, "unit", "time"),
           "dmi": C(U.demean_by_group, df, cols, "unit"), "wti": C(U.within_transform, df, cols, "unit", "time", suffix="_w")}
    wide = df.pivot_table(index="time", columns="unit", values="y")
    tr = df.groupby("unit")["treated"].max()
    post = df.groupby("time")["post"].max()
    Yc, Yt = wide.loc[:, tr[tr == 0].index].to_numpy().copy(), wide.loc[:, tr[tr == 1].index].mean(axis=1).to_numpy().copy()
    pre, po = (post == 0).to_numpy(), (post == 1).to_numpy()
    w = C(U.compute_synthetic_weights, Yc[pre], Yt[pre], lambda_reg=a["lam"], min_weight=a["mw"])
    tw = C(U.compute_time_weights, Yc[pre], Yt[pre], zeta=1.0)
    out["w"], out["tw"] = w, tw
    out["att"] = C(U.compute_sdid_estimator, Yc[pre], Yc[po], Yt[pre], Yt[po], w.copy(), tw.copy())
    out["plac"] = C(U.compute_placebo_effects, Yc[pre], Yc[po], Yt[pre], w.copy(), tw.copy(), tr[tr == 0].index.tolist(), n_placebo=a["np"])
    X = np.column_stack([np.ones(len(df)), df["treated"], df["post"], df["d"]]).astype(float)
    y = df["y"].to_numpy(dtype=float).copy()
    beta = np.linalg.lstsq(X, y, rcond=None)[0]
    out["rse"] = C(U.compute_robust_se, X, y - X @ beta, df["cl"].to_numpy().copy() if a["cl"] else None)
    out["r2"] = [LA.compute_r_squared(y, y - X @ beta), LA.compute_r_squared(y, y - X @ beta, adjusted=True, n_params=4)]
    out["ci"] = [U.compute_confidence_interval(1.0, 0.4, 0.05, df=7), U.compute_p_value(1.7), U.compute_p_value(1.7, df=3, two_sided=False)]
    c, r, f, v = C(LA.solve_ols, X, y, return_fitted=True, column_names=["a", "b", "c", "d"])
    out["fit"] = [c, r, f, v]
    t = sorted(df["time"].unique().tolist())
    out["pt"] = C(dd.check_parallel_trends, df, "y", "time", "treated")
    out["ptr"] = C(dd.check_parallel_trends_robust, df, "y", "time", "treated", n_permutations=20, seed=5, pre_periods=t[:2])
    out["eq"] = C(dd.equivalence_test_trends, df, "y", "time", "treated", equivalence_margin=0.5)
    return out


def c_varx(dd, df, a):
    """Less travelled arguments of the estimators."""
    v = a["v"]
    t = sorted(df["time"].unique().tolist())
    kw = dict(outcome="y", treatment="treated", time="time")
    if v == "mpdef":
        return C(dd.MultiPeriodDiD(robust=a["robust"]).fit, df, **kw)
    if v == "mpfe":
        return C(dd.MultiPeriodDiD(robust=a["robust"], cluster="cl").fit, df, post_periods=t[-2:], fixed_effects=["grp"], covariates=["x1"], **kw)
    if v == "mprank":
        tmp = df.assign(x3=df["x1"] * 2.0)
        return C(dd.MultiPeriodDiD(robust=a["robust"], rank_deficient_action="silent").fit, tmp, post_periods=t[-2:], covariates=["x1", "x3"], **kw)
    if v == "mpwild":
        return C(dd.MultiPeriodDiD(inference="wild_bootstrap", cluster="cl", n_bootstrap=19, seed=2).fit, df, post_periods=t[-1:], **kw)
    if v == "honest_l":
        r = _mp_results(df)
        lv = np.arange(1.0, len(r.period_effects) + 1)
        lv = lv / lv.sum()
        lv = lv if a.get("nd") else lv.tolist()
        h = C(dd.HonestDiD, method=a["m"], M=0.5, l_vec=lv)
        return [C(h.fit, r), C(h.sensitivity_analysis, r, M_grid=seq(a, [0.0, 0.5]))]
    if v == "honest_post":
        from diff_diff.honest_did import DeltaRM, DeltaSD, DeltaSDRM
        return [repr(DeltaSD(0.5)), repr(DeltaRM(1.0)), repr(DeltaSDRM(0.5, 1.0)), C(dd.compute_honest_did, _mp_results(df), method=a["m"], M=1.0)]
    if v == "twfe_dec":
        est = dd.TwoWayFixedEffects(robust=a["robust"])
        return C(est.fit, df, outcome="y", treatment="treated", time="post", unit="unit", covariates=["x1", "x2"])
    if v == "didfe":
        return C(dd.DifferenceInDifferences(robust=a["robust"], cluster="cl").fit, df, outcome="y", treatment="treated", time="post",
                 fixed_effects=["grp", "cl"], covariates=["x1"])
    if v == "didabs":
        return C(dd.DifferenceInDifferences(inference="wild_bootstrap", cluster="cl", n_bootstrap=19, seed=4).fit, df, outcome="y", treatment="treated",
                 time="post", absorb=["unit", "time"], covariates=["x1"])
    if v == "power":
        pa = dd.PowerAnalysis(alternative=a["alt"])
        return [C(pa.power, 0.5, 30, 40, 1.5, n_pre=1, n_post=1), C(pa.mde, 30, 40, 1.5, n_pre=3, n_post=2, rho=0.4), C(pa.sample_size, 0.5, 1.5, n_pre=2, n_post=2)]
    if v == "inf":
        lr = dd.LinearRegression(robust=True)
        C(lr.fit, df[["x1", "treated"]].to_numpy(dtype=float), df["y"].to_numpy(dtype=float).copy(), df_adjustment=int(a.get("df", 5)))
        i = [lr.get_inference(k, alpha=0.2) for k in range(3)] + [lr.get_inference(1, df=-1)]
        return [[x.is_significant(), x.is_significant(0.2), x.significance_stars(), x.to_dict()] for x in i] + i
    est = dd.DifferenceInDifferences()
    C(est.fit, df, outcome="y", treatment="treated", time="post", covariates=["x1"])
    return [est.summary(), est.get_params(), est.results_]


def c_csx(dd, df, a):
    v = a["v"]
    kw = _stag_kw(df)
    if v == "nancov":
        tmp = df.copy()
        tmp.loc[tmp.index[:: 17], "x1"] = np.nan
        return C(dd.CallawaySantAnna(estimation_method=a["m"], control_group=a["cg"]).fit, tmp, covariates=["x1"], **kw)
    if v == "old":
        return C(dd.CallawaySantAnna, bootstrap_weight_type="webb", n_bootstrap=10, seed=3, cluster=None).fit(df, aggregate="all", **kw)
    if v == "sepcov":
        tmp = df.assign(sep=(df["first_treat"].replace(np.inf, 0) > 0).astype(float))
        return C(dd.CallawaySantAnna(estimation_method=a["m"], control_group=a["cg"]).fit, tmp, covariates=["sep", "x2"], aggregate="simple", **kw)
    if v == "sacl":
        return C(dd.SunAbraham(cluster="cl", control_group=a["cg"], n_bootstrap=a["nb"], seed=1).fit, df, covariates=["x1", "x2"], **kw)
    r = C(dd.CallawaySantAnna(base_period="universal", control_group=a["cg"], n_bootstrap=a["nb"], seed=1).fit, df, aggregate="event_study", balance_e=1, **kw)
    return [r, C(dd.compute_honest_did, r, method="smoothness", M=0.1)]


FUN["utilx"] = (["panel"], lambda r: {"sfx": r.choice(["", "_dm"]), "lam": r.choice([0.0, 0.5]), "mw": r.choice([1e-6, 0.05]), "np": r.choice([None, 3]),
                                      "cl": r.random() < 0.5}, c_utilx)
VARX = ["mpdef", "mpfe", "mprank", "mpwild", "honest_l", "honest_post", "twfe_dec", "didfe", "didabs", "power", "inf", "sum"]
FUN["varx"] = (["panel"], lambda r: {"v": r.choice(VARX), "robust": r.random() < 0.6, "nd": r.random() < 0.5, "m": r.choice(["smoothness", "relative_magnitude", "combined"]),
                                     "alt": r.choice(["two-sided", "greater", "less"]), "df": r.choice([3, 9])}, c_varx)
FUN["csx"] = (["stag"], lambda r: {"v": r.choice(["nancov", "old", "sepcov", "sacl", "uni"]), "m": r.choice(["dr", "ipw", "reg"]),
                                   "cg": r.choice(["never_treated", "not_yet_treated"]), "nb": r.choice([0, 10])}, c_csx)
FUN["plotx"] = (["stag", "panel"], lambda r: {"v": None, "own": r.random() < 0.5, "show": r.random() < 0.1}, c_plotx)
FUN["honestx"] = (["stag", "panel"], lambda r: {"m": r.choice(["smoothness", "relative_magnitude", "combined"]), "M": r.choice([0.0, 0.5, 1.0]),
                                                "dg": r.random() < 0.3, "bd": r.random() < 0.5, "npost": r.choice([1, 2]), "nd": r.random() < 0.4}, c_honestx)
FUN["prex"] = (["stag", "panel"], lambda r: {"vt": r.choice(["linear", "constant", "last_period"]), "sa": r.random() < 0.4}, c_prex)
FUN["prepx"] = (["panel"], lambda r: {"v": r.choice(["ind", "bal", "val", "rank", "wide"])}, c_prepx)
FUN["placebo"] = (["panel"], lambda r: {"tt": r.choice(["fake_timing", "fake_group", "permutation", "leave_one_out"]), "nb": r.randint(10, 20),
                                        "robust": r.random() < 0.6, "seed": _seed(r)}, c_placebo)
FUN["powerx"] = (["did"], lambda r: {"v": r.choice(["curve", "mp", "twfe", "cov", "cs", "wild"]), "alt": r.choice(["two-sided", "greater", "less"]),
                                     "n": r.randint(10, 16), "nb": r.randint(4, 7), "prog": r.random() < 0.3, "seed": _seed(r), "nd": r.random() < 0.4}, c_powerx)
FUN["lin"] = (["did", "panel"], lambda r: {"dup": r.random() < 0.3, "cl": r.random() < 0.4, "int": r.random() < 0.7}, c_lin)
PLOTV = {"stag": ["sa", "csref", "group", "bar", "scatter", "hes"],
         "panel": ["sens", "splot", "dict", "frame", "mpref", "power", "powern", "powerl", "pre", "pres", "prec", "list"]}

STOCHASTIC = {"did", "twfe", "sdid", "cs", "sa", "trop", "wild", "perm", "suite", "simpow", "ptr", "gen", "placebo", "powerx"}
SLOW = {"trop": 8, "sa": 2, "sdid": 2, "suite": 2, "plot": 4}


def families():
    return sorted(EST) + sorted(FUN)


def gen(rng, fams=None, weights=None):
    fam = rng.choice(fams or families())
    return gen_fam(rng, fam)


def gen_bad(rng, fam):
    """An op on awkward data (it may legitimately be refused)."""
    op = gen_fam(rng, fam)
    op["data"]["bad"] = rng.choice(D.BAD)
    if "rank_deficient_action" in op["params"]:
        op["params"]["rank_deficient_action"] = rng.choice(["warn", "silent", "error"])
    return op


def gen_fam(rng, fam, kind=None):
    if fam in EST:
        cls, kinds, pg, fg, _ = EST[fam]
        p = pg(rng)
        if fam in ("did", "twfe"):
            p = fix_did(p)
        op = {"fam": fam, "params": p, "data": D.gen(rng, kind or rng.choice(kinds)), "fit": fg(rng)}
    else:
        kinds, ag, _ = FUN[fam]
        op = {"fam": fam, "params": {}, "data": D.gen(rng, kind or rng.choice(kinds)), "fit": ag(rng)}
    if rng.random() < 0.2:
        op["fit"]["flip"] = True
    if fam == "plotx":
        op["fit"]["v"] = rng.choice(PLOTV[op["data"]["kind"]])
    if rng.random() < 0.15:
        op["data"]["dtypes"] = rng.choice(D.DTYPES)
    if op["data"]["kind"] == "stag" and fam in ("cs", "sa") and rng.random() < 0.2:
        op["data"]["float_ft"] = rng.choice(["float", "inf"])
    return op


def build(op):
    import diff_diff as dd
    return getattr(dd, EST[op["fam"]][0])(**op["params"])


def rendered(r):
    """Every public rendering of a results object: exercised, and its output kept."""
    out = {}
    cls = type(r)
    if isinstance(r, dict):
        return {str(k): x for k, x in ((k, rendered(v)) for k, v in r.items()) if x}
    if isinstance(r, (list, tuple)):
        return {str(k): x for k, x in enumerate(map(rendered, r)) if x}
    if not cls.__module__.startswith("diff_diff") or cls.__module__.endswith(".prep"):
        return out
    for name in dir(cls):
        if name.startswith("_"):
            continue
        st = inspect.getattr_static(cls, name)
        try:
            if isinstance(st, property):
                out[name] = getattr(r, name)
            elif name in ("summary", "to_dict", "effect_by_type", "weight_by_type", "get_time_weights_df", "get_unit_weights_df",
                          "get_time_effects_df", "get_treatment_effects_df", "get_unit_effects_df", "power_curve_df", "print_summary"):
                out[name] = getattr(r, name)()
            elif name == "to_dataframe":
                levels = ["group_time", "event_study", "group", "cohort"] if "level" in inspect.signature(st).parameters else [None]
                for lv in levels:
                    try:
                        out[name + str(lv)] = r.to_dataframe() if lv is None else r.to_dataframe(level=lv)
                    except Exception as e:
                        out[name + str(lv)] = ["exc", type(e).__name__, str(e)[:120]]
            elif name == "power_at":
                out[name] = r.power_at(0.5)
            elif name == "get_effect":
                out[name] = r.get_effect(r.post_periods[0])
        except Exception as e:  # e.g. optional pieces missing
            out[name] = ["exc", type(e).__name__, str(e)[:120]]
    out["repr"] = repr(r)
    return out


def run(op, df=None, est=None, render=True):
    """Execute the op.  Returns (result, canonical form)."""
    import diff_diff as dd
    if df is None:
        df = D.make(op["data"])
    L.flip = bool(op["fit"].get("flip"))
    try:
        if op["fam"] in EST:
            if est is None:
                est = build(op)
            r = EST[op["fam"]][4](est, df, op["fit"])
        else:
            r = FUN[op["fam"]][2](dd, df, op["fit"])
    finally:
        L.flip = False
    extra = rendered(r) if render else {}
    return r, canon([r, extra])


def shrink_op(op):
    """Simpler versions of one op."""
    import copy
    d = op["data"]
    for k in ("bad", "shuffle", "index", "labels", "float_ft", "dtypes"):
        if d.get(k) not in (None, "int"):
            c = copy.deepcopy(op)
            c["data"].pop(k)
            yield c
    for k, v in op["fit"].items():
        if v not in (None, False) and k in ("covariates", "aggregate", "balance_e", "absorb", "fixed_effects", "ref_first", "dup", "clustered", "flip", "nd"):
            c = copy.deepcopy(op)
            c["fit"][k] = None
            yield c
