"""P16: every call comes to an end, whatever the inner routines return and however demanding the tolerances are."""
import copy

from .. import core, lib, ops, seam, tracer
from . import preload


class Hang(BaseException):
    pass


def tol_honest(dd, df, a):
    r = ops._mp_results(df)
    h = dd.HonestDiD(method=a["m"])
    return {"bd": h.breakdown_value(r, tol=a["tol"])}


def tol_logit(dd, df, a):
    """Separated and nearly separated designs drive the logistic fits to their iteration limit."""
    d = df.copy()
    d["x1"] = d["x1"] * a["scale"] + (d["first_treat"] > 0) * a["sep"]
    return dd.CallawaySantAnna(estimation_method=a["em"], rank_deficient_action="silent").fit(
        d, outcome="y", unit="unit", time="time", first_treat="first_treat", covariates=["x1"])


def tol_weights(dd, df, a):
    import numpy as np
    from diff_diff import utils as U
    rng = np.random.default_rng(a["seed"])
    Y = rng.normal(size=(a["T"], a["n"])) * a["scale"]
    if a["dup"]:
        Y[:, 1:] = Y[:, :1]
    y = rng.normal(size=a["T"]) * a["scale"]
    return {"w": U.compute_synthetic_weights(Y, y, a["lam"]), "t": U.compute_time_weights(Y, y, a["lam"]),
            "s": dd.rank_control_units(df, "unit", "time", "y", treatment_column="treated",
                                       pre_periods=sorted(df.loc[df["post"] == 0, "time"].unique().tolist()), lambda_reg=a["lam"])}


def tol_power(dd, df, a):
    p = dd.PowerAnalysis(alpha=a["alpha"], power=a["power"], alternative=a["alt"])
    return {"n": p.sample_size(a["es"], a["sd"], treat_frac=a["frac"], rho=a["rho"]), "m": p.mde(2, 3, a["sd"], rho=a["rho"]),
            "c": p.sample_size_curve(a["es"], a["sd"])}


def tol_mdv(dd, df, a):
    t = sorted(df["time"].unique().tolist())
    r = dd.MultiPeriodDiD().fit(df.assign(y=df["y"] * a["scale"]), outcome="y", treatment="treated", time="time", post_periods=t[1:])
    p = dd.PreTrendsPower(alpha=a["alpha"], power=a["power"], violation_type=a["vt"])
    return {"f": p.fit(r, pre_periods=t[1:-1]), "c": p.power_curve(r, n_points=5, pre_periods=t[1:-1])}


SPECIAL = {
    "tol_honest": ("panel", lambda r: {"m": r.choice(["smoothness", "relative_magnitude", "combined"]),
                                       "tol": r.choice([0.1, 1e-6, 1e-12, 1e-15, 1e-17, 1e-300, 0.0])}, tol_honest),
    "tol_logit": ("stag", lambda r: {"scale": r.choice([1e-8, 1.0, 1e3]), "sep": r.choice([0.0, 1.0, 50.0]), "em": r.choice(["dr", "ipw"])}, tol_logit),
    "tol_weights": ("panel", lambda r: {"seed": r.randint(0, 9999), "T": r.choice([1, 2, 5]), "n": r.choice([1, 2, 6]), "lam": r.choice([0.0, 1e-12, 1.0, 1e9]),
                                        "scale": r.choice([1e-12, 1.0, 1e8, 1e160]), "dup": r.random() < 0.3}, tol_weights),
    "tol_power": ("did", lambda r: {"alpha": r.choice([1e-12, 0.05, 0.5]), "power": r.choice([0.01, 0.5, 0.999999]), "alt": r.choice(["two-sided", "greater", "less"]),
                                    "es": r.choice([1e-4, 0.3, 50.0]), "sd": r.choice([1e-6, 1.0, 20.0]), "frac": r.choice([0.01, 0.5, 0.99]),
                                    "rho": r.choice([0.0, 0.5, 0.99])}, tol_power),
    "tol_mdv": ("panel", lambda r: {"scale": r.choice([1e-9, 1.0, 1e9]), "alpha": r.choice([1e-10, 0.05, 0.9]), "power": r.choice([0.05, 0.8, 0.9999999]),
                                    "vt": r.choice(["linear", "constant", "last_period"])}, tol_mdv),
}
FUNW = {"plotx": 0, "plot": 0, "conv": 1, "gen": 1}


class PROP(core.Property):
    ID = "P16"
    BUDGET = {"quick": (900, 100), "thorough": (25000, 800)}
    RULE = ("A case is one public operation with demanding tolerances, extreme but legal arguments or awkward data, or with inner routines that from some call on return "
            "NaN, noise, huge values, or never report convergence; it must end within a step budget of 60 times the undisturbed run plus 300000 library lines, and 100 times its kernel calls plus 50000 "
            "(logical time; no wall clock). Non-trivial: a disturbance was active. Distinct: different (operation, disturbance, outcome).")
    REAL = ["all of diff_diff (python backend)", "numpy", "pandas", "scipy"]
    STUB = ["numerical kernels returning NaN, noise, huge values or no convergence"]
    ASSUMPTIONS = ["a loop that does not end runs through library source lines (C routines end)"]

    def __init__(self):
        super().__init__()
        preload.library()
        tracer._all_codes()

    def gen(self, rng, tier, i):
        fams = [f for f in ops.families() if FUNW.get(f, 1)]
        if i % 5 in (1, 3):
            name = sorted(SPECIAL)[(i // 5 * 2 + i % 5 // 3) % len(SPECIAL)]
            op = ops.gen_fam(rng, "lin", SPECIAL[name][0])
            op.update(fam=name, fit=SPECIAL[name][1](rng))
            fault = None if rng.random() < 0.8 else self._fault(rng)
        else:
            it = ["trop", "sdid", "honest", "honestx", "pretrends", "prex", "cs", "ddd", "rank", "prepx"]
            fam = rng.choice(it) if rng.random() < 0.7 else rng.choice(fams)
            op = ops.gen_bad(rng, fam) if rng.random() < 0.2 else ops.gen_fam(rng, fam)
            if fam == "trop":
                op["params"]["tol"] = rng.choice([0.0, 1e-5, 1e-300])
            fault = self._fault(rng) if rng.random() < 0.85 else None
        return {"op": op, "fault": fault}

    def _fault(self, rng):
        return {"kind": rng.choice(["nan", "nan", "noise", "noise", "huge", "noconv"]), "from": round(rng.random(), 4) if rng.random() < 0.6 else 0.0,
                "p": rng.choice([0.3, 1.0, 1.0]), "name": rng.choice([None, None, "svd", "solve", "minimize", "linprog"]), "salt": rng.randint(0, 999)}

    def _run(self, op):
        from .. import data as D
        import diff_diff as dd
        if op["fam"] in SPECIAL:
            return SPECIAL[op["fam"]][2](dd, D.make(op["data"]), op["fit"])
        return ops.run(op, render=False)[0]

    def execute(self, scn):
        import numpy as np
        out = core.Outcome()
        op, f = scn["op"], scn["fault"]

        def ref():
            lib.arm_warnings()
            o = copy.deepcopy(op)
            o["data"].pop("bad", None)
            if "tol" in o["fit"]:
                o["fit"]["tol"] = 0.1
            if "tol" in o["params"]:
                o["params"]["tol"] = 1e-5
            seam.reset()
            seam.S.armed = True
            tracer.start(None)
            try:
                with np.errstate(all="ignore"):
                    self._run(o)
            except Exception:  # noqa: BLE001
                pass
            n, k = tracer.stop(), seam.S.count
            seam.reset()
            return n, k
        lines, kernels = core.in_child(ref)
        limit, klimit = 60 * lines + 300000, 100 * kernels + 50000
        lib.arm_warnings()
        where = {}

        def handler(code, line):
            if tracer.T.steps > limit - 2000 or seam.S.count > klimit:
                q = code.co_filename.rsplit("/", 1)[-1] + ":" + code.co_qualname
                where[q] = where.get(q, 0) + 1
                if tracer.T.steps > limit or seam.S.count > klimit:
                    raise Hang()
        seam.reset()
        seam.S.armed = True
        if f:
            k0 = int(f["from"] * kernels)

            def plan(name, k, kn):
                if k <= k0 or (f["name"] and f["name"] not in name) or (k * 2654435761 + f["salt"] * 40503) % 1000 >= f["p"] * 1000:
                    return None
                opt = name in seam.SOPT
                if f["kind"] == "noconv":
                    return "noconv" if name in ("minimize", "linprog", "minimize_scalar") else None
                return None if opt else f["kind"]
            seam.S.plan = plan
        res = "returned"
        hung = False
        tracer.start(handler)
        try:
            with np.errstate(all="ignore"):
                self._run(op)
        except Hang:
            hung = True
        except Exception as e:  # noqa: BLE001
            res = type(e).__name__
        finally:
            n = tracer.stop()
            for kk, nm, _ in seam.S.fired:
                out.faults["%s(%s)" % (kk, nm)] += 1
            fired = len(seam.S.fired)
            seam.reset()
        out.steps += n
        out.probes["over_10_percent_of_budget"] += n > limit / 10 and not hung
        out.log(op["fam"], res if not hung else "hang", fired, n if not hung else -1)
        out.probes[res if not hung else "hang"] += 1
        out.nontrivial = fired > 0 or op["fam"] in SPECIAL or bool(op["data"].get("bad"))
        out.state = [op["fam"], op["fit"], f and [f["kind"], f["name"], f["p"]], res, min(fired, 50)]
        if hung:
            out.violate("does_not_end:" + op["fam"], "%s%s still running after %d library lines (undisturbed: %d lines); it is in %s"
                        % (lib.short(op), " with %s" % f if f else "", n, lines, sorted(where, key=where.get)[-3:]))
        return out

    def shrink(self, scn):
        if scn["fault"]:
            yield dict(copy.deepcopy(scn), fault=None)
            for k, v in (("from", 0.0), ("p", 1.0), ("name", None)):
                if scn["fault"][k] != v:
                    c = copy.deepcopy(scn)
                    c["fault"][k] = v
                    yield c
        for o in ops.shrink_op(scn["op"]):
            yield dict(copy.deepcopy(scn), op=o)
