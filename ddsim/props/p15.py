"""P15: which backend computes, or fails to, never changes the answer."""
import copy
import math
import re

import numpy as np

from .. import backend as B
from .. import canon as CN
from .. import core, lib, ops, rngseam, seam
from .. import data as D
from . import preload

SAFE = {"unstable"}                     # documented: fall back to the Python implementation
LOSSY = {"simpow", "powerx", "perm", "loo", "suite", "placebo", "ptr", "pt"}    # may leave failed replicates out (P09, P11, P12)
DEGENERATE = {"const_y"}                # zero residual variance: ratios of rounding errors
ENVS = [None, "auto", "python", "rust", "AUTO", "Python", "RUST"]
FAMS = ["did", "twfe", "mp", "sdid", "cs", "sa", "ddd", "bacon", "honest", "pretrends", "linreg", "wild", "perm", "loo", "lin", "placebo", "powerx", "honestx", "prex", "simpow", "suite", "pt", "ptr", "csx", "csx", "varx", "varx", "utilx"]


def trop_params(rng):
    inf = math.inf
    return {"method": rng.choice(["twostep", "joint"]), "lambda_time_grid": rng.sample([0.0, 0.5, 1.0, inf], rng.choice([1, 2])),
            "lambda_unit_grid": rng.sample([0.0, 0.4, inf], rng.choice([1, 2])), "lambda_nn_grid": rng.sample([0.1, 1.0, inf], rng.choice([1, 2])),
            "max_iter": rng.choice([4, 8]), "tol": rng.choice([1e-6, 1e-4]), "alpha": rng.choice([0.05, 0.2]), "variance_method": rng.choice(["bootstrap", "bootstrap", "jackknife"]),
            "n_bootstrap": rng.choice([4, 11, 15]), "max_loocv_samples": rng.choice([3, 5]), "seed": rng.randint(0, 9999)}


def tfit(p, df):
    import diff_diff as dd
    p = {k: [float(x) for x in v] if k.endswith("_grid") else v for k, v in p.items()}
    return dd.TROP(**p).fit(df, outcome="y", treatment="d", unit="unit", time="time")


FIELDS = ["att", "se", "t_stat", "p_value", "conf_int", "treatment_effects", "unit_effects", "time_effects", "factor_matrix", "effective_rank", "n_obs", "n_treated",
          "lambda_time", "lambda_unit", "lambda_nn", "loocv_score", "bootstrap_distribution", "alpha", "variance_method"]


def tpick(r):
    return {k: CN.canon(getattr(r, k, None)) for k in FIELDS}


class PROP(core.Property):
    ID = "P15"
    BUDGET = {"quick": (900, 100), "thorough": (25000, 800)}
    RULE = ("A case is one public call executed by the library with a simulated compiled backend (all functions answering, or chosen calls failing as the extension fails: "
            "numerical instability, NaN variance, failed inversion, panic, out of memory, no usable result) and by the pure Python library, or one import under a value of "
            "DIFF_DIFF_BACKEND with the extension present, absent or incomplete. Non-trivial: the backend was called. Distinct: different (operation, functions called, failures, outcome).")
    REAL = ["all of diff_diff including its backend selection and routing", "numpy", "pandas", "scipy"]
    STUB = ["diff_diff._rust_backend: independent NumPy implementation of the documented functions with the strict argument types of the extension"]
    ASSUMPTIONS = ["the compiled extension is not built here; the simulated one stands for any conforming implementation", "agreement to 1e-6 relative"]

    def __init__(self):
        super().__init__()
        preload.numeric()
        rngseam.install()
        preload.library()
        self.A = {k: v for k, v in __import__("sys").modules.items() if k == "diff_diff" or k.startswith("diff_diff.")}
        self.Bmods = B.fresh("auto", B.module())

    # ------------------------------------------------------------------ scenarios
    def gen(self, rng, tier, i):
        faults = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 4])):
            faults.append({"pos": round(rng.random(), 5), "kind": rng.randint(0, 999)})
        if rng.random() < 0.15:
            faults = [{"pos": None, "kind": rng.randint(0, 999)}]          # every call
        k = i % 8
        if k == 0:
            ext = rng.choice(["full", "full", "absent", "broken", "missing:" + rng.choice(B.NAMES)])
            op = ops.gen_fam(rng, rng.choice(["did", "mp", "cs", "sdid", "linreg"]))
            if op["fam"] == "cs":
                op["params"]["n_bootstrap"] = 0
                op["fit"]["covariates"] = ["x1"]
            single(op)
            return {"t": "select", "env": rng.choice(ENVS), "ext": ext, "op": op, "faults": []}
        if k in (1, 5):
            T = rng.randint(4, 6)
            s = {"kind": "factor", "seed": rng.randint(0, 10 ** 6), "sd": 0.5, "eff": rng.choice([0.0, 2.0]), "n": rng.randint(6, 8), "T": T, "t0": T - rng.choice([1, 2]),
                 "ntr": rng.choice([1, 2, 3]), "rank": 1, "tbase": rng.choice([0, 1990]), "labels": rng.choice(["int", "str"])}
            return {"t": "trop", "data": s, "params": trop_params(rng), "lam": [rng.randint(0, 3) for _ in range(3)],
                    "reps": [round(rng.gauss(1, 1), 6) for _ in range(15)], "short": rng.choice([0, 0, 0, 1]), "loo": rng.choice([None, None, "value", "runtime", "memory", "inf", "none", "some", "some", "panic", "interrupt"]),
                    "boot": rng.choice([None, None, "value", "runtime", "memory", "few", "empty", "panic", "interrupt"]), "faults": []}
        if k == 2:
            op = ops.gen_fam(rng, "cs")
            op["params"].update(n_bootstrap=rng.choice([5, 20, 49]), bootstrap_weights=rng.choice(["rademacher", "mammen", "webb"]), seed=rng.randint(0, 9999))
        else:
            fam = rng.choice(FAMS)
            op = ops.gen_bad(rng, fam) if rng.random() < 0.12 else ops.gen_fam(rng, fam)
            if op["data"].get("bad") in DEGENERATE or fam == "sdid" and op["data"].get("bad") in ("nan_y", "inf_y", "huge"):   # what the compiled descent does with them is not known here
                op["data"].pop("bad")
        single(op)
        return {"t": "op", "op": op, "faults": faults}

    def execute(self, scn):
        return getattr(self, "x_" + scn["t"])(scn, core.Outcome())

    # ------------------------------------------------------------------ any operation
    def reference(self, op):
        def go():
            lib.arm_warnings()
            seam.reset()
            rngseam.reset()
            wt = op["params"].get("bootstrap_weights") or "rademacher"
            if op["fam"] == "csx":
                wt = "webb" if op["fit"]["v"] == "old" else "rademacher"
            if op["fam"] == "cs" or op["fam"] == "csx" and op["fit"]["v"] in ("old", "uni"):
                def script(name, a, k, v):
                    if isinstance(v, np.ndarray) and v.ndim == 2:
                        return B.weights(v.shape[0], v.shape[1], wt)
                    return None
                rngseam.S.script = script
                rngseam.S.armed = True
            o, _ = lib.call(op)
            return o
        return core.in_child(go)

    def backend_run(self, op, plan=None):
        B.reset()
        B.S.plan = plan
        rngseam.reset()
        lib.arm_warnings()
        try:
            o, _ = lib.call(op)
        except BaseException as e:  # noqa: BLE001
            o = {"ok": False, "exc": [type(e).__name__, str(e)], "base": True, "warns": []}
        st = {"calls": list(B.S.calls), "fired": list(B.S.fired), "args": list(B.S.args)}
        B.reset()
        return o, st

    def x_op(self, scn, out):
        op = scn["op"]
        ref = self.reference(op)
        B.put(self.Bmods)
        got, st = self.backend_run(op)
        calls = st["calls"]
        out.nontrivial = bool(calls)
        for c in set(calls):
            out.probes["backend:" + c] += calls.count(c)
        name = op["fam"]
        out.log(name, len(calls), got["ok"])

        def bad(cls, msg):
            out.violate(cls + ":" + name, "%s: %s" % (lib.short(op), msg))
        d = lib.same(ref, got, warns=True, rtol=1e-6)
        if d and benign(op, ref, got, d):
            out.probes["ill_conditioned"] += 1
            return out
        if d:
            bad("backend_changes_answer", "with the backend: %s" % d)
            return out
        if op["fam"] == "cs" and op["params"].get("n_bootstrap"):
            seeds = [a["seed"] for n, a in st["args"] if n == "generate_bootstrap_weights_batch"]
            again, st2 = self.backend_run(op)
            o3 = copy.deepcopy(op)
            o3["params"]["seed"] += 1
            _, st3 = self.backend_run(o3)
            s2, s3 = ([a["seed"] for n, a in s["args"] if n == "generate_bootstrap_weights_batch"] for s in (st2, st3))
            if seeds != s2:
                bad("seed_not_passed", "the same seed gives the backend seeds %s and %s" % (seeds, s2))
            if seeds and seeds == s3:
                bad("seed_not_passed", "seeds %d and %d both give the backend seeds %s" % (op["params"]["seed"], o3["params"]["seed"], seeds))
        if not scn["faults"] or not calls:
            out.state = [name, sorted(set(calls)), None, got["ok"]]
            return out
        at = {}
        for f in scn["faults"]:
            if f["pos"] is None:
                for k, c in enumerate(calls):
                    at[k + 1] = B.KINDS[c][f["kind"] % len(B.KINDS[c])]
            else:
                k = int(f["pos"] * len(calls))
                at[k + 1] = B.KINDS[calls[k]][f["kind"] % len(B.KINDS[calls[k]])]

        def plan(fn, k, kn):
            kind = at.get(k)
            return kind if kind in B.KINDS[fn] else None
        got, st = self.backend_run(op, plan)
        kinds = [k for k, _ in st["fired"]]
        for k, n in st["fired"]:
            out.faults["%s(%s)" % (k, n)] += 1
        out.state = [name, sorted(set(calls)), sorted(set(st["fired"])), got["ok"]]
        out.log(st["fired"], got["ok"], got.get("exc"))
        if not kinds:
            return out
        if {"panic", "interrupt"} & set(kinds):
            if not got.get("base"):
                bad("interruption_swallowed", "%s in the backend never reached the caller (%s)" % (kinds, got.get("exc") or "returned a result"))
            return out
        if got.get("base"):
            bad("wrong_exception", "%s gives %s" % (st["fired"], got["exc"]))
            return out
        if not got["ok"]:
            if ref["ok"] and set(kinds) <= SAFE:
                bad("no_fallback", "backend reports numerical instability (%s): raised %s" % (st["fired"], got["exc"]))
            return out
        if not ref["ok"] or ((op["fam"] in LOSSY or op["params"].get("n_bootstrap")) and not set(kinds) <= SAFE):
            return out
        d = lib.same(ref, got, rtol=1e-6)
        if d and not visible(ref, got, d) and not benign(op, ref, got, d):
            bad("fallback_changes_answer", "after %s: %s" % (st["fired"], d))
        return out

    # ------------------------------------------------------------------ TROP: tuning, replicates
    def x_trop(self, scn, out):
        p = scn["params"]
        df = D.make(scn["data"])
        m = p["method"]
        grids = [[float(x) for x in p[k]] for k in ("lambda_time_grid", "lambda_unit_grid", "lambda_nn_grid")]
        lam = tuple(g[i % len(g)] for g, i in zip(grids, scn["lam"]))

        def ref():
            lib.arm_warnings()
            try:
                full = tpick(tfit(p, df))
                one = tpick(tfit(dict(p, lambda_time_grid=[lam[0]], lambda_unit_grid=[lam[1]], lambda_nn_grid=[lam[2]]), df))
            except Exception as e:  # noqa: BLE001
                return {"exc": repr(e)}
            return {"full": full, "one": one}
        o = core.in_child(ref)
        if "exc" in o:
            out.probes["reference_refused"] += 1
            return out
        B.put(self.Bmods)
        B.reset()
        B.S.lam = scn["lam"]
        B.S.reps = scn["reps"][:8] if scn["short"] else scn["reps"]
        want = {"loocv_grid_search": scn["loo"], "loocv_grid_search_joint": scn["loo"], "bootstrap_trop_variance": scn["boot"], "bootstrap_trop_variance_joint": scn["boot"]}
        B.S.plan = lambda fn, k, kn: want.get(fn) if kn == 1 else None
        lib.arm_warnings()
        n0 = len(lib._WARN)
        r, died = None, None
        try:
            r = tfit(p, df)
        except BaseException as e:  # noqa: BLE001
            died = e
        warns = [w for _, _, w in lib._WARN[n0:]]
        st = {n: i for n, i in B.S.args}
        fired = dict((n, k) for k, n in B.S.fired)
        for n, k in fired.items():
            out.faults["%s(%s)" % (k, n)] += 1
        out.nontrivial = bool(st)
        loo = next((k for n, k in fired.items() if "loocv" in n), None)
        boo = next((k for n, k in fired.items() if "bootstrap" in n), None)
        out.state = [m, p["variance_method"], loo, boo, scn["short"], type(died).__name__]
        out.log(m, sorted(fired.items()), type(died).__name__, warns)

        def bad(cls, msg):
            out.violate(cls + ":trop/" + m, "TROP(%s), backend search %s, backend bootstrap %s: %s" % ({k: v for k, v in p.items() if k != "tol"}, loo or "ok", boo or "ok", msg))
        if loo in ("panic", "interrupt") or boo in ("panic", "interrupt"):
            if died is None or isinstance(died, Exception):
                bad("interruption_swallowed", "the caller saw %r" % (died,))
            return out
        if died is not None:
            bad("backend_failure_kills_fit", "raised %r" % (died,))
            return out
        g = tpick(r)
        sname = next((n for n in st if "loocv" in n), None)
        if sname is None:
            bad("backend_not_used", "calls: %s" % sorted(st))
            return out
        a = st[sname]
        exp = {"seed": p["seed"], "mls": p["max_loocv_samples"], "mi": p["max_iter"], "tol": p["tol"], "mask": True}
        d = {k: (a[k], v) for k, v in exp.items() if a[k] != v}
        if d or [list(x) for x in a["grids"]] != grids:
            bad("search_arguments", "the backend was asked with %s, grids %s" % (d, a["grids"]))
        scripted = loo in (None, "some")
        base = dict(o["one"] if scripted else o["full"])
        if scripted:
            base["loocv_score"] = 7.25
        if loo in ("some", "none"):
            n_ok, n_all = (15, 20) if loo == "some" else (0, 20)
            if not any(re.search(r"(?<!\d)%d(?!\d)" % n_all, w) for w in warns):
                bad("lost_fits_not_announced", "backend reports %d of %d fits, warnings %s" % (n_ok, n_all, warns))
        bname = next((n for n in st if "bootstrap" in n), None)
        core_f = [k for k in FIELDS if k not in ("se", "t_stat", "p_value", "conf_int", "bootstrap_distribution")]
        d = CN.diff([[k, base[k]] for k in core_f], [[k, g[k]] for k in core_f], rtol=1e-6)
        if d:
            bad("fit_not_from_tuning", "%s (expected the fit at %s)" % (d, "backend's " + str(lam) if scripted else "the Python search's values"))
            return out
        if p["variance_method"] == "bootstrap" and bname is None:
            bad("backend_not_used", "bootstrap not asked from the backend: %s" % sorted(st))
            return out
        if bname:
            b = st[bname]
            sel = [float(g[k]) for k in ("lambda_time", "lambda_unit", "lambda_nn")]
            eff = (0.0 if math.isinf(sel[0]) else sel[0], 0.0 if math.isinf(sel[1]) else sel[1], 1e10 if math.isinf(sel[2]) else sel[2])
            if tuple(b["lam"]) != eff or b["B"] != p["n_bootstrap"] or b["seed"] != p["seed"] or b["mi"] != p["max_iter"] or b["tol"] != p["tol"]:
                bad("bootstrap_arguments", "the backend was asked with %s for selected %s" % (b, sel))
        if bname and boo in (None, "few", "empty"):
            v = (scn["reps"][:8] if scn["short"] else scn["reps"])[:p["n_bootstrap"]]
            v = v[:7] if boo == "few" else v[:0] if boo == "empty" else v
            used = len(v) >= 10 or m == "joint"
        else:
            used = False
        if not used:
            inf_f = ["se", "t_stat", "p_value", "conf_int", "bootstrap_distribution"]
            d = CN.diff([[k, base[k]] for k in inf_f], [[k, g[k]] for k in inf_f], rtol=1e-6)
            if d:
                bad("fallback_changes_answer", "inference differs from the Python one: %s" % d)
            return out
        out.probes["backend_replicates"] += 1
        dist = [] if r.bootstrap_distribution is None else [float(x) for x in np.asarray(r.bootstrap_distribution).ravel()]
        se = float(np.std(v, ddof=1)) if len(v) > 1 else 0.0
        if len(dist) != len(v) or any(abs(x - y) > 1e-12 for x, y in zip(sorted(dist), sorted(v))):
            bad("replicates", "backend gave %s, result holds %s" % (v, dist))
        if len(v) < p["n_bootstrap"] * 0.5 and len(v) < 10 and not any(re.search(r"(?<!\d)%d(?!\d)" % len(v), w) for w in warns):
            bad("lost_replicates_not_announced", "%d of %d replicates, warnings %s" % (len(v), p["n_bootstrap"], warns))
        if len(v) > 1:
            t = float(r.att) / se
            if abs(float(r.se) - se) > 1e-9 * se or abs(float(r.t_stat) - t) > 1e-9 * abs(t):
                bad("inference", "se %r, t %r; the replicates give %r, %r" % (r.se, r.t_stat, se, t))
            if isinstance(base["se"], float) and base["se"] > 0 and isinstance(base["conf_int"], list):
                hw0 = (base["conf_int"][2] - base["conf_int"][1]) / base["se"]
                hw = (r.conf_int[1] - r.conf_int[0]) / se
                if abs(hw - hw0) > 1e-6 * hw0 or abs((r.conf_int[1] + r.conf_int[0]) / 2 - r.att) > 1e-9 * (1 + abs(r.att)):
                    bad("inference", "interval %s around %r with se %r; the Python one has width %r se" % (r.conf_int, r.att, se, hw0))
                from scipy import stats
                n = max(1, int(r.n_treated_obs) - 1) if hasattr(r, "n_treated_obs") else None
                if n and abs(float(base["p_value"]) - 2 * stats.t.sf(abs(base["t_stat"]), n)) < 1e-9 and abs(float(r.p_value) - 2 * stats.t.sf(abs(t), n)) > 1e-9:
                    bad("inference", "p-value %r for t %r with %d degrees of freedom" % (r.p_value, t, n))
        else:
            if any(isinstance(x, float) and math.isfinite(x) for x in (float(r.t_stat), float(r.p_value), float(r.conf_int[0]))):
                bad("inference_from_nothing", "%d replicates, yet t %r p %r interval %s" % (len(v), r.t_stat, r.p_value, r.conf_int))
        return out

    # ------------------------------------------------------------------ selection
    def x_select(self, scn, out):
        env, ext, op = scn["env"], scn["ext"], scn["op"]
        have = ext == "full"
        mode = (env or "auto").lower()
        obj = B.module() if have else None if ext == "absent" else ImportError("libdd.so: undefined symbol") if ext == "broken" else B.module((ext.split(":")[1],))
        ref = self.reference(op)
        out.nontrivial = True
        out.state = [env, ext.split(":")[0], op["fam"]]
        out.faults["extension " + ext.split(":")[0]] += 1

        def bad(cls, msg):
            out.violate(cls, "DIFF_DIFF_BACKEND=%s, extension %s: %s" % (env, ext, msg))
        try:
            mods = B.fresh(env, obj)
        except ImportError as e:
            out.log(env, ext, "ImportError")
            if mode != "rust" or have:
                bad("import_fails", "importing diff_diff raised %r" % (e,))
            elif "diff-diff" not in str(e) and "backend" not in str(e).lower():
                bad("import_message", "the error does not name the missing backend: %r" % (e,))
            return out
        if mode == "rust" and not have:
            bad("forced_backend_missing", "import succeeded although the forced backend cannot be used")
            return out
        B.put(mods)
        want = have and mode != "python"
        if bool(mods["diff_diff"].HAS_RUST_BACKEND) != want:
            bad("selection", "HAS_RUST_BACKEND is %r" % (mods["diff_diff"].HAS_RUST_BACKEND,))
        got, st = self.backend_run(op)
        out.log(env, ext, want, len(st["calls"]), got["ok"])
        if not want and st["calls"]:
            bad("selection", "the disabled backend was called: %s" % st["calls"][:5])
        if want and not st["calls"] and got["ok"] and op["fam"] in ("did", "mp"):
            bad("selection", "the selected backend was never called by %s" % op["fam"])
        d = lib.same(ref, got, warns=True, rtol=1e-6)
        if d and not benign(op, ref, got, d):
            bad("selection_changes_answer", "%s: %s" % (lib.short(op), d))
        return out

    def shrink(self, scn):
        for f in core.shrink_list(scn["faults"]) if scn["faults"] else []:
            yield dict(copy.deepcopy(scn), faults=f)
        if "op" in scn:
            for o in ops.shrink_op(scn["op"]):
                yield dict(copy.deepcopy(scn), op=o)


def single(op):
    """Single precision data: the answers of two algorithms agree to 1e-5 only."""
    if op["data"].get("dtypes") == "f32":
        op["data"].pop("dtypes")


def benign(op, ref, got, d):
    """A bootstrap or permutation p-value in which a replicate ties with the estimate up to rounding."""
    m = re.search(r": ([\d.eE+-]+) != ([\d.eE+-]+)$", d)
    nb = op["fit"].get("nb") or op["params"].get("n_bootstrap") or (19 if op["fam"] == "varx" else None)
    if not m or not nb or not (op["fam"] in LOSSY or op["fam"] == "wild" or op["params"].get("inference") == "wild_bootstrap" or op["fit"].get("v") in ("didabs", "mpwild")):
        return False
    a, b = float(m.group(1)), float(m.group(2))
    return 0 <= a <= 1 and 0 <= b <= 1 and (abs(a - b) < 3.01 / nb or op["fam"] not in LOSSY)


def visible(ref, got, d):
    """The difference is a NaN where a number was."""
    return bool(re.search(r"!= nan$", d))
