"""P10: every replicate is the estimator on the sample drawn, and the inference is computed from the replicates."""
import copy
import math

import numpy as np
import pandas as pd

from .. import core, lib, resample, rngseam, seam
from .. import data as D
from . import preload

WEIGHTS = ["rademacher", "webb", "mammen"]
FAMS = ["sdid_b", "cs", "sa", "wild", "trop_tb", "sdid_p", "perm", "cs", "wild_did", "loo", "ptr", "trop_jb", "sa", "cs", "wild_twfe", "trop_tj", "sdid_b", "trop_jj"]


class PROP(core.Property):
    ID = "P10"
    BUDGET = {"quick": (900, 100), "thorough": (25000, 800)}
    RULE = ("A case is one resampling procedure run with every random draw recorded and, in two thirds of the cases, some draws replaced by unlikely but "
            "legal ones (one unit drawn throughout, the original sample, the original or the mirrored assignment, constant multiplier weights, a Hadamard "
            "design of multiplier weights). Non-trivial: at least one replicate was recomputed independently from its draw. Distinct: different (procedure, "
            "options, kind of draws, replicates recomputed, replicates reported).")
    REAL = ["all of diff_diff (python backend)", "numpy", "pandas", "scipy"]
    STUB = ["np.random.default_rng records draws and may replace them by other legal draws"]
    ASSUMPTIONS = ["a replicate draw is a draw of units, of an assignment or of one multiplier per cluster; other schemes are not recomputed"]

    def __init__(self):
        super().__init__()
        preload.numeric()
        rngseam.install()
        preload.library()

    def gen(self, rng, tier, i):
        fam = FAMS[i % len(FAMS)]
        if fam in ("cs", "wild", "wild_did", "wild_twfe", "ptr"):
            op = gen_other(rng, fam)
        else:
            op = resample.gen(rng, fam)
        script = rng.choice([None, "ident", "const", "few", "ident"])
        if fam == "cs" and rng.random() < 0.4:
            script = "hadamard"
            op["params"]["bootstrap_weights"] = "rademacher"
            op["params"]["n_bootstrap"] = 64
        return {"op": op, "script": script, "every": rng.choice([1, 2, 3, 5]), "shift": rng.randint(0, 6)}

    def execute(self, scn):
        out = core.Outcome()
        op = scn["op"]
        lib.arm_warnings()
        df = D.make(op["data"])
        seam.reset()
        rngseam.reset()
        if scn["script"]:
            rngseam.S.script = rngseam.extreme(scn["script"], 1 if scn["script"] == "hadamard" else scn["every"], scn["shift"])
        rngseam.S.armed = True
        fam = op["fam"] + ("/" + op["params"].get("variance_method", "") if op["params"].get("variance_method") else "")
        try:
            r = run(op, df)
        except Exception as e:  # noqa: BLE001
            out.log(fam, "raised", type(e).__name__)
            out.probes["refused"] += 1
            return out
        finally:
            rngseam.S.armed = False
        draws, scripted = rngseam.last_generator(), rngseam.S.scripted
        rngseam.reset()
        if scripted:
            out.faults["extreme_draw(%s)" % scn["script"]] += scripted
        bad, n = CHECK.get(op["fam"], check_replicates)(op, df, r, draws, out)
        out.nontrivial = n > 0
        out.probes["replicates_recomputed"] += n
        out.state = [fam, {k: v for k, v in op["params"].items() if k not in ("seed",)}, scn["script"], n]
        for cls, msg in bad:
            out.violate(cls + ":" + fam, "%s draws=%s: %s" % (lib.short(op), scn["script"] or "as drawn", msg))
        out.log(fam, scn["script"], n, bad)
        return out

    def shrink(self, scn):
        if scn["script"]:
            yield dict(copy.deepcopy(scn), script=None)
        p = scn["op"]["params"]
        for k in ("n_bootstrap",):
            if p.get(k, 0) > 4 and scn["script"] != "hadamard":
                s = copy.deepcopy(scn)
                s["op"]["params"][k] = p[k] // 2
                yield s
        from .. import ops
        for o in ops.shrink_op(scn["op"]):
            yield dict(copy.deepcopy(scn), op=o)


# ------------------------------------------------------------------- running
def gen_other(rng, fam):
    seed = rng.randint(0, 9999)
    s = {"seed": rng.randint(0, 10 ** 6), "sd": rng.choice([0.3, 1.0]), "eff": rng.choice([0.0, 0.7, 2.0]), "labels": rng.choice(["int", "str", "offset"])}
    if rng.random() < 0.3:
        s["shuffle"] = rng.choice([1, 2])
    if rng.random() < 0.3:
        s["index"] = rng.choice(["offset", "str"])
    alpha = rng.choice([0.05, 0.1, 0.2])
    if fam == "cs":
        T = rng.randint(4, 6)
        s.update(kind="stag", n=rng.randint(14, 30), T=T, cohorts=sorted(rng.sample(range(2, T), rng.choice([1, 2]))), tbase=rng.choice([1, 2000]), never=0.4)
        p = {"control_group": rng.choice(["never_treated", "not_yet_treated"]), "anticipation": rng.choice([0, 0, 1]), "alpha": alpha,
             "estimation_method": rng.choice(["dr", "ipw", "reg"]), "base_period": rng.choice(["varying", "universal"]),
             "bootstrap_weights": rng.choice(WEIGHTS), "n_bootstrap": rng.choice([5, 20, 60]), "seed": seed}
        return {"fam": "cs", "params": p, "data": s, "fit": {"aggregate": rng.choice([None, "event_study", "group", "all"]), "covariates": rng.choice([None, None, ["x2"]])}}
    if fam == "ptr":
        T = rng.choice([4, 6])
        s.update(kind="panel", n=rng.randint(8, 16), T=T, t0=T - 1, ntr=rng.choice([3, 5]))
        return {"fam": "ptr", "params": {}, "data": s, "fit": {"nb": rng.choice([5, 20, 60]), "seed": seed, "unit": rng.random() < 0.7}}
    T = rng.choice([2, 4])
    s.update(kind="did", n=rng.randint(10, 24), T=T, t0=T // 2)
    return {"fam": fam, "params": {}, "data": s, "fit": {"nb": rng.choice([9, 19, 39]), "w": rng.choice(WEIGHTS), "seed": seed, "alpha": alpha,
                                                         "cov": rng.random() < 0.4, "h0": rng.choice([0.0, 0.0, 1.0]) if fam == "wild" else 0.0}}


def design(op, df):
    a = op["fit"]
    y = df["y"].to_numpy(dtype=float)
    if op["fam"] == "wild_twfe":
        def dm(v):
            v = pd.Series(np.asarray(v, dtype=float), index=df.index)
            u, t = df["unit"], df["post"]
            return (v - v.groupby(u.values).transform("mean") - v.groupby(t.values).transform("mean") + v.mean()).to_numpy()
        X = [np.ones(len(df)), (df["treated"] * df["post"]).to_numpy(dtype=float)] + ([dm(df["x1"])] if a["cov"] else [])
        return np.column_stack(X), dm(y), 1
    X = [np.ones(len(df)), df["treated"], df["post"], df["treated"] * df["post"]] + ([df["x1"]] if a["cov"] else [])
    return np.column_stack(X).astype(float), y, 3


def run(op, df):
    import diff_diff as dd
    a, f = op["fit"], op["fam"]
    if f == "wild":
        X, y, j = design(op, df)
        b = np.linalg.lstsq(X, y, rcond=None)[0]
        return dd.wild_bootstrap_se(X, y, y - X @ b, df["cl"].to_numpy(), j, n_bootstrap=a["nb"], weight_type=a["w"], null_hypothesis=a["h0"],
                                    alpha=a["alpha"], seed=a["seed"], return_distribution=True)
    if f in ("wild_did", "wild_twfe"):
        kw = dict(inference="wild_bootstrap", n_bootstrap=a["nb"], bootstrap_weights=a["w"], seed=a["seed"], cluster="cl", alpha=a["alpha"])
        cov = ["x1"] if a["cov"] else None
        if f == "wild_did":
            return dd.DifferenceInDifferences(**kw).fit(df, outcome="y", treatment="treated", time="post", covariates=cov)
        return dd.TwoWayFixedEffects(**kw).fit(df, outcome="y", treatment="treated", time="post", unit="unit", covariates=cov)
    if f == "ptr":
        pre = sorted(df.loc[df["post"] == 0, "time"].unique().tolist())
        return dd.check_parallel_trends_robust(df, "y", "time", "treated", unit="unit" if a["unit"] else None, pre_periods=pre, n_permutations=a["nb"], seed=a["seed"])
    if f == "cs":
        return dd.CallawaySantAnna(**op["params"]).fit(df, "y", "unit", "time", "first_treat", covariates=a["covariates"], aggregate=a["aggregate"])
    return resample.call(op, df)


# -------------------------------------------------------------------- oracles
def stats_of(x, est, alpha, kind):
    """SE, percentile interval and p-value range of a bootstrap distribution."""
    x = np.asarray(x, dtype=float)
    se = float(np.std(x, ddof=1))
    ci = [float(np.percentile(x, 100 * alpha / 2)), float(np.percentile(x, 100 * (1 - alpha / 2)))]
    lo, hi = resample._opposite(x, est, tol=1e-10)
    fl = 1.0 / (len(x) + 1)
    return se, ci, max(lo, fl), max(hi, fl)


def near(a, b, tol=1e-7):
    return resample._close(a, b, tol)


def check_wild(op, df, r, draws, out):
    a = op["fit"]
    X, y, j = design(op, df)
    cl = df["cl"].to_numpy()
    names = np.unique(cl)
    G, B = len(names), a["nb"]
    W = [v for _, m, v, _ in draws if isinstance(v, np.ndarray) and v.shape == (G,)]
    if len(W) != B or np.linalg.matrix_rank(X) < X.shape[1] or G < 3:
        out.probes["scheme_not_understood"] += 1
        return [], 0
    W = np.array(W)[:, np.searchsorted(names, cl)]
    XtX = np.linalg.inv(X.T @ X)
    c = np.sqrt(G / (G - 1) * (len(y) - 1) / (len(y) - X.shape[1]))

    def ols(yy):
        b = XtX @ (X.T @ yy)
        e = yy - X @ b
        M = sum(np.outer(s, s) for s in (X[cl == n].T @ e[cl == n] for n in names))
        return b[j], c * math.sqrt(max((XtX @ M @ XtX)[j, j], 0.0)), e
    b0, se0, e0 = ols(y)
    t0 = (b0 - a["h0"]) / se0
    Xo = np.delete(X, j, axis=1)
    yr = y - a["h0"] * X[:, j]
    fr = Xo @ np.linalg.lstsq(Xo, yr, rcond=None)[0]
    er, fr = yr - fr, fr + a["h0"] * X[:, j]
    ts, bs = [], []
    for w in W:
        b, s, _ = ols(fr + er * w)
        ts.append((b - a["h0"]) / s if s > 1e-10 else 0.0)
        bs.append(ols(y - e0 + e0 * w)[0])
    bad = []
    t_r = r.t_stat_original if op["fam"] == "wild" else r.t_stat
    se_r = r.se
    p_r = r.p_value
    ci_r = [r.ci_lower, r.ci_upper] if op["fam"] == "wild" else list(r.conf_int)
    if not near(t_r, t0, 1e-6):
        bad.append(("wild_t", "t statistic is %r, cluster-robust t is %r" % (t_r, t0)))
        return bad, B
    lo, hi = resample._share(ts, t0, tol=1e-7)
    fl = 1.0 / (B + 1)
    if not (max(lo, fl) - 1e-9 <= p_r <= max(hi, fl) + 1e-9):
        bad.append(("wild_p", "p-value is %r; the share of bootstrap |t*| under the null at least |t|=%.4g is %r..%r of %d draws" % (p_r, abs(t0), lo, hi, B)))
    if not near(se_r, np.std(bs, ddof=1), 1e-6):
        bad.append(("wild_se", "SE is %r, the bootstrap coefficients have %r" % (se_r, float(np.std(bs, ddof=1)))))
    ci = [float(np.percentile(bs, 50 * a["alpha"])), float(np.percentile(bs, 100 - 50 * a["alpha"]))]
    if not all(near(x, z, 1e-6) for x, z in zip(ci_r, ci)):
        bad.append(("wild_ci", "interval %r, the bootstrap coefficients give %r" % (ci_r, ci)))
    if op["fam"] != "wild" and (r.n_bootstrap != B or r.n_clusters != G or r.inference_method != "wild_bootstrap"):
        bad.append(("wild_meta", "reports n_bootstrap=%r n_clusters=%r method=%r" % (r.n_bootstrap, r.n_clusters, r.inference_method)))
    return bad, B


def check_ptr(op, df, r, draws, out):
    from scipy import stats
    if "error" in r:
        return [], 0
    tc, cc = np.asarray(r["treated_changes"]), np.asarray(r["control_changes"])
    x = np.concatenate([tc, cc])
    P = [v for _, m, v, _ in draws if m == "permutation" and isinstance(v, np.ndarray) and v.shape == (len(x),)]
    if len(P) != op["fit"]["nb"]:
        out.probes["scheme_not_understood"] += 1
        return [], 0
    pre = df[df["post"] == 0].sort_values(["unit", "time"])
    if op["fit"]["unit"]:
        w = pre.pivot(index="unit", columns="time", values="y").diff(axis=1).iloc[:, 1:]
        tr = df.groupby("unit")["treated"].max().reindex(w.index)
        mine = [np.sort(w[tr == 1].to_numpy().ravel()), np.sort(w[tr == 0].to_numpy().ravel())]
        if not (np.allclose(mine[0], np.sort(tc)) and np.allclose(mine[1], np.sort(cc))):
            return [("ptr_changes", "outcome changes do not match the panel")], len(P)
    d0 = stats.wasserstein_distance(tc, cc)
    ds = [stats.wasserstein_distance(x[p[:len(tc)]], x[p[len(tc):]]) for p in P]
    lo = sum(d > d0 + 1e-10 for d in ds) / len(ds)
    hi = sum(d >= d0 - 1e-10 for d in ds) / len(ds)
    fl = 1.0 / (len(ds) + 1)
    bad = []
    if not near(r["wasserstein_distance"], d0):
        bad.append(("ptr_distance", "distance %r, data give %r" % (r["wasserstein_distance"], d0)))
    if not (lo - 1e-9 <= r["wasserstein_p_value"] <= max(hi, fl) + 1e-9):
        bad.append(("ptr_p", "p-value %r, permutations give %r..%r" % (r["wasserstein_p_value"], lo, hi)))
    return bad, len(P)


def check_cs(op, df, r, draws, out):
    p, a = op["params"], op["fit"]
    b = r.bootstrap_results
    units = sorted(df["unit"].unique().tolist())
    coh = df.groupby("unit")["first_treat"].first()
    W = [v for _, m, v, _ in draws if isinstance(v, np.ndarray) and v.ndim == 2 and v.shape[0] == p["n_bootstrap"]]
    if len(W) != 1 or b is None:
        out.probes["scheme_not_understood"] += 1
        return [], 0
    W = W[0]
    wide = df.pivot(index="unit", columns="time", values="y").loc[units]
    gt = r.group_time_effects
    IF, used = {}, set()
    for (g, t) in gt:
        base = t - 1 if (p["base_period"] == "varying" and t < g - p["anticipation"]) else g - 1 - p["anticipation"]
        c = coh.loc[units].to_numpy()
        tr = c == g
        co = (c == 0) if p["control_group"] == "never_treated" else (c == 0) | ((c > t) & (c != g))
        dy = (wide[t] - wide[base]).to_numpy()
        v = np.zeros(len(units))
        v[tr] = (dy[tr] - dy[tr].mean()) / tr.sum()
        v[co] = -(dy[co] - dy[co].mean()) / co.sum()
        IF[(g, t)] = v
        used |= set(np.flatnonzero(tr | co))
        if a["covariates"] is None and not near(dy[tr].mean() - dy[co].mean(), gt[(g, t)]["effect"], 1e-6):
            out.probes["scheme_not_understood"] += 1
            return [], 0
    if W.shape[1] != len(used):
        out.probes["scheme_not_understood"] += 1
        return [], 0
    cols = sorted(used)
    bad, n = [], p["n_bootstrap"]

    def inf(name, dist, est, got_se, got_ci, got_p, got_t):
        se, ci, lo, hi = stats_of(dist, est, p["alpha"], "cs")
        if se < 1e-9:
            return
        if not near(got_se, se, 1e-6):
            bad.append(("cs_se", "%s: SE %r, the perturbed influence functions give %r" % (name, got_se, se)))
        elif not all(near(x, z, 1e-6) for x, z in zip(got_ci, ci)):
            bad.append(("cs_ci", "%s: interval %r, expected %r" % (name, list(got_ci), ci)))
        elif not (lo - 1e-9 <= got_p <= hi + 1e-9):
            bad.append(("cs_p", "%s: p-value %r, expected %r..%r" % (name, got_p, lo, hi)))
        elif got_t is not None and not near(got_t, est / se, 1e-6):
            bad.append(("cs_t", "%s: t %r, expected %r" % (name, got_t, est / se)))
    cov = a["covariates"] is not None
    if not cov:
        # influence functions are elementary: the whole bootstrap can be redone
        dist = {k: gt[k]["effect"] + W @ v[cols] for k, v in IF.items()}
        for k in gt:
            e = gt[k]
            inf("ATT%s" % (k,), dist[k], e["effect"], e["se"], e["conf_int"], e["p_value"], e["t_stat"])
        comb = lambda ks, ws: sum(w * dist[k] for k, w in zip(ks, ws)) / sum(ws)  # noqa: E731
    else:
        n_had = W.shape[0]
        if not np.allclose(W.T @ W, n_had * np.eye(W.shape[1])):
            comb = None
        else:
            # an orthogonal design of weights reproduces the analytical variance exactly
            q = dict(p, n_bootstrap=0)
            import diff_diff as dd
            r0 = dd.CallawaySantAnna(**q).fit(df, "y", "unit", "time", "first_treat", covariates=a["covariates"], aggregate=a["aggregate"])
            for k in gt:
                e0 = r0.group_time_effects[k]
                if p["estimation_method"] == "ipw" or not e0["se"] > 1e-9 or min(e0["n_treated"], e0["n_control"]) < 3:
                    continue
                out.probes["orthogonal_design"] += 1
                hi = e0["se"] * math.sqrt(n_had / (n_had - 1))
                # outcome regression: the analytical SE divides by n-1, influence functions by n
                lo = hi if p["estimation_method"] == "dr" else hi * math.sqrt(1 - 1 / min(e0["n_treated"], e0["n_control"]))
                if not lo * (1 - 1e-6) <= gt[k]["se"] <= hi * (1 + 1e-6):
                    bad.append(("cs_se_design", "ATT%s: SE %r under an orthogonal weight design, analytical SE gives %r..%r" % (k, gt[k]["se"], lo, hi)))
            comb = None
    post = [k for k in gt if k[1] >= k[0] - p["anticipation"]]
    nt = {k: gt[k]["n_treated"] for k in gt}
    bd = np.asarray(b.bootstrap_distribution, dtype=float)
    if post:
        if comb:
            want = comb(post, [nt[k] for k in post])
            if bd.shape != want.shape or not np.allclose(bd, want, rtol=1e-6, atol=1e-9):
                bad.append(("cs_distribution", "overall bootstrap distribution is not the weighted average of the perturbed effects"))
        if np.isfinite(bd).all():
            inf("overall", bd, r.overall_att, r.overall_se, r.overall_conf_int, r.overall_p_value, r.overall_t_stat)
    if comb and r.event_study_effects:
        for e, d in r.event_study_effects.items():
            ks = [k for k in gt if k[1] - k[0] == e]
            if ks and np.isfinite(d["se"]):
                inf("event %s" % e, comb(ks, [nt[k] for k in ks]), d["effect"], d["se"], d["conf_int"], d["p_value"], d["t_stat"])
    if comb and r.group_effects:
        for g, d in r.group_effects.items():
            ks = [k for k in post if k[0] == g]
            if ks:
                inf("group %s" % g, comb(ks, [1.0] * len(ks)), d["effect"], d["se"], d["conf_int"], d["p_value"], d["t_stat"])
    return bad[:3], n


def resampled(df, units):
    parts = []
    for i, u in enumerate(units):
        d = df[(df["unit"] == u).to_numpy()].copy()
        d["unit"] = "b%04d" % i
        parts.append(d)
    return pd.concat(parts, ignore_index=True)


def fresh(op, frame):
    """Point estimate (and event study) of the same estimator freshly fitted to a frame; None if it refuses."""
    import diff_diff as dd
    f, p = op["fam"], dict(op["params"])
    try:
        if f == "sdid":
            p.update(variance_method="placebo", n_bootstrap=2)
            tr = sorted(frame.loc[frame["treated"] == 1, "unit"].unique())
            if not tr or len(tr) == frame["unit"].nunique():
                return None
            return float(dd.SyntheticDiD(**p).fit(frame, outcome="y", treatment="treated", unit="unit", time="time",
                                                  post_periods=sorted(frame.loc[frame["post"] == 1, "time"].unique().tolist())).att)
        if f == "sa":
            p.update(n_bootstrap=0)
            r = dd.SunAbraham(**p).fit(frame, outcome="y", unit="unit", time="time", first_treat="first_treat", covariates=op["fit"]["covariates"])
            return float(r.overall_att), {e: float(d["effect"]) for e, d in r.event_study_effects.items()}
        if f == "trop":
            p.update(variance_method="jackknife")
            return float(dd.TROP(**p).fit(frame, outcome="y", treatment="d", unit="unit", time="time").att)
        kw = {"robust": op["fit"]["robust"]}
        return float(dd.DifferenceInDifferences(**kw).fit(frame, outcome="y", treatment="treated", time="post").att)
    except (ValueError, KeyError, np.linalg.LinAlgError):
        return None


def align(expected, got, tol):
    """Ordered alignment; None in expected = unknown (present or absent).  -> True/False"""
    reach = {0}
    for e in expected:
        nxt = set()
        for j in reach:
            if e is None:
                nxt.add(j)
                if j < len(got):
                    nxt.add(j + 1)
            elif j < len(got) and abs(got[j] - e) <= tol:
                nxt.add(j + 1)
        reach = nxt
        if not reach:
            return False
    return len(got) in reach


def check_replicates(op, df, r, draws, out):
    f = op["fam"]
    surv = resample.survivors(op, r)
    s = resample.summary(op, r)
    bad = [("inference_not_from_replicates", m) for m in resample.inference(op, s, surv)]
    exp, limit = expected(op, df, r, draws, out)
    if exp is None:
        out.probes["scheme_not_understood"] += 1
        return bad, 0
    known = [e for e in exp if e is not None]
    scale = 1 + max([abs(v) for v in known] or [0])
    if not align(exp, surv, limit * scale):
        bad.append(("replicate_is_not_the_estimate", "the %d replicates reported are %s; estimates on the samples drawn are %s" % (
            len(surv), ["%.7g" % v for v in surv], [e if e is None else "%.7g" % e for e in exp])))
    return bad, len(known)


def expected(op, df, r, draws, out):
    f = op["fam"]
    units = df["unit"].unique().tolist()
    n, pool = len(units), set(units)
    vals = [v for _, m, v, _ in draws if m == "choice" and isinstance(v, np.ndarray)]
    if f == "loo":
        tr = df.loc[df["treated"] == 1, "unit"].unique().tolist()
        return [fresh(op, df[(df["unit"] != u).to_numpy()]) for u in tr] if len(tr) > 1 else [], 1e-8
    if f == "trop" and op["params"]["variance_method"] == "jackknife":
        tr = sorted(df.loc[df["d"] == 1, "unit"].unique().tolist())
        if len(tr) < 2:
            return [], 1e-6
        return [fresh(op, df[(df["unit"] != u).to_numpy()]) for u in tr], 1e-6
    if f == "sdid" and op["params"]["variance_method"] == "placebo":
        return placebo(op, df, r, draws), 1e-7
    if not all(v.ndim == 1 and set(v.tolist()) <= pool for v in vals):
        return None, 0
    if f == "perm":
        if len(vals) != op["fit"]["nb"]:
            return None, 0
        out_ = []
        for v in vals:
            d = df.copy()
            d["treated"] = d["unit"].isin(v.tolist()).astype(int)
            out_.append(fresh(op, d))
        return out_, 1e-8
    if f == "trop":
        if len(vals) != 2 * op["params"]["n_bootstrap"] or op["params"]["variance_method"] != "bootstrap":
            return None, 0
        samples = [list(vals[2 * i]) + list(vals[2 * i + 1]) for i in range(len(vals) // 2)]
    else:
        if len(vals) != op["params"]["n_bootstrap"]:
            return None, 0
        samples = [v.tolist() for v in vals]
    if any(len(v) != n for v in samples):
        return None, 0
    res = []
    if f == "sa":
        ft = df.groupby("unit")["first_treat"].first()
        full = set(ft.unique().tolist())
        ev0 = set(r.event_study_effects)
        evs = {e: [] for e in ev0}
        for v in samples:
            x = fresh(op, resampled(df, v)) if {ft[u] for u in v} == full else None
            if x is None or not math.isfinite(x[0]) or set(x[1]) != ev0:
                res.append(None)
                for e in evs:
                    evs[e].append(None)
                continue
            res.append(x[0])
            for e in evs:
                evs[e].append(x[1][e])
        for e, v in evs.items():
            if len(v) > 2 and all(z is not None and math.isfinite(z) for z in v):
                se = float(np.std(v, ddof=1))
                if not resample._close(r.event_study_effects[e]["se"], se, 1e-6):
                    out.violate("event_se_not_from_replicates:sa", "%s: event %s SE %r, estimates on the samples drawn give %r" % (lib.short(op), e, r.event_study_effects[e]["se"], se))
        return res, 1e-6
    return [fresh(op, resampled(df, v)) for v in samples], 1e-6


def placebo(op, df, r, draws):
    P = [v for _, m, v, _ in draws if m == "permutation"]
    if len(P) != op["params"]["n_bootstrap"]:
        return None
    uw = r.unit_weights
    tw = r.time_weights
    wide = df.pivot(index="time", columns="unit", values="y")
    # controls in the order the weights are reported
    ctl = list(uw)
    ntr = int(df.loc[df["treated"] == 1, "unit"].nunique())
    pre = sorted(df.loc[df["post"] == 0, "time"].unique().tolist())
    post = sorted(df.loc[df["post"] == 1, "time"].unique().tolist())
    w = np.array([uw[u] for u in ctl], dtype=float)
    t = np.array([tw[x] for x in pre], dtype=float)
    if len(ctl) != wide.shape[1] - ntr or len(ctl) <= ntr:
        return [] if len(ctl) <= ntr else None
    A, Bm = wide.loc[pre, ctl].to_numpy(), wide.loc[post, ctl].to_numpy()
    res = []
    for p in P:
        if not isinstance(p, np.ndarray) or len(p) != len(ctl):
            return None
        c, tr = p[:len(ctl) - ntr], p[len(ctl) - ntr:]
        ww = w[c]
        ww = ww / ww.sum() if ww.sum() > 0 else np.full(len(c), 1 / len(c))
        a = Bm[:, tr].mean() - t @ A[:, tr].mean(axis=1)
        b = (Bm[:, c] @ ww).mean() - t @ (A[:, c] @ ww)
        res.append(float(a - b))
    return res


CHECK = {"wild": check_wild, "wild_did": check_wild, "wild_twfe": check_wild, "ptr": check_ptr, "cs": check_cs}
