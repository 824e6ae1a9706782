"""P14: TROP's cross-validation picks and reports honestly, also when fits inside it fail."""
import copy
import itertools
import math
import re

import numpy as np

from .. import core, lib, rngseam, seam, tracer
from .. import data as D
from ..story import MSG
from . import preload

DEFAULT = (1.0, 1.0, 0.1)


def fit(scn, df, grids=None, **kw):
    import diff_diff as dd
    p = dict(scn["params"], **kw)
    if grids is not None:
        p.update(lambda_time_grid=[grids[0]], lambda_unit_grid=[grids[1]], lambda_nn_grid=[grids[2]])
    p = {k: [float(x) for x in v] if k.endswith("_grid") else v for k, v in p.items()}
    return dd.TROP(**p).fit(df, outcome="y", treatment="d", unit="unit", time="time")


def pick(r):
    return {"lam": (float(r.lambda_time), float(r.lambda_unit), float(r.lambda_nn)), "score": float(r.loocv_score), "att": float(r.att),
            "eff": {str(k): float(v) for k, v in r.treatment_effects.items()}}


def close(a, b, tol=1e-8):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b)) or (math.isnan(a) and math.isnan(b)) or a == b


class Table:
    """Scores of single combinations, each from a search whose grid holds nothing else."""

    def __init__(self, scn, df):
        self.scn, self.df, self.memo = scn, df, {}

    def __call__(self, c):
        c = tuple(float(x) for x in c)
        if c not in self.memo:
            self.memo[c] = pick(fit(self.scn, self.df, c))
        return self.memo[c]

    def score(self, c):
        r = self(c)
        return math.inf if math.isnan(r["score"]) else r["score"]


class Tie(Exception):
    pass


def eff(c):
    return (0.0 if math.isinf(c[0]) else c[0], 0.0 if math.isinf(c[1]) else c[1], c[2])


def descend(tab, gt, gu, gn, cycles=10):
    """The documented two-stage search (univariate starts, then coordinate descent) over the table."""
    def best(cands):
        sc = [tab.score(c) for c in cands]
        if not any(math.isfinite(s) for s in sc):
            return cands[0], math.inf
        j = min(range(len(sc)), key=lambda k: sc[k])
        if any(abs(sc[k] - sc[j]) <= 1e-9 * (1 + abs(sc[j])) and eff(cands[k]) != eff(cands[j]) for k in range(len(sc))):
            raise Tie()
        return cands[j], sc[j]
    inf = math.inf
    t0 = best([(v, 0.0, inf) for v in gt])[0][0]
    n0 = best([(inf, 0.0, v) for v in gn])[0][2]
    u0 = best([(0.0, v, inf) for v in gu])[0][1]
    lt, lu, ln, prev = t0, u0, n0, inf
    for _ in range(cycles):
        lu = best([(lt, v, ln) for v in gu])[0][1]
        lt = best([(v, lu, ln) for v in gt])[0][0]
        c, s = best([(lt, lu, v) for v in gn])
        ln = c[2]
        if abs(s - prev) < 1e-6:
            break
        prev = s
    return (lt, lu, ln)


class PROP(core.Property):
    ID = "P14"
    BUDGET = {"quick": (500, 100), "thorough": (20000, 800)}
    RULE = ("A case is one TROP fit (two-step or joint, grids of 1-3 values per parameter incl. infinity, sub-sampled hold-out cells, gaps in the panel) in which fits "
            "inside the cross-validation fail (library lines, SVD/least-squares kernels); compared with single-combination searches, or one hold-out cell whose outcome is "
            "perturbed cell by cell, or scripted hold-out sets scored whole, reversed and one by one. Non-trivial: a failure fired or more than one combination competed. Distinct: different (method, grid sizes, failures, outcome).")
    REAL = ["diff_diff.trop (python backend)", "numpy", "pandas"]
    STUB = ["failing numpy.linalg calls and exceptions at library source lines"]
    ASSUMPTIONS = ["a fit inside the search fails by raising LinAlgError or ValueError", "seed given, so all searches hold out the same cells"]

    def __init__(self):
        super().__init__()
        rngseam.install()
        preload.library()
        tracer._all_codes()

    def gen(self, rng, tier, i):
        T = rng.randint(4, 6)
        s = {"kind": "factor", "seed": rng.randint(0, 10 ** 6), "sd": rng.choice([0.3, 1.0]), "eff": rng.choice([0.0, 2.0]), "n": rng.randint(6, 8), "T": T,
             "t0": T - rng.choice([1, 2]), "ntr": rng.choice([1, 2, 3]), "rank": 1, "tbase": rng.choice([0, 1990]), "labels": rng.choice(["int", "str"])}
        if rng.random() < 0.3:
            s["shuffle"] = 1
        gaps = [] if rng.random() < 0.6 else [round(rng.random(), 4) for _ in range(rng.choice([1, 3]))]
        method = ["twostep", "joint"][i % 2]
        if i % 7 == 3:
            p = {"lambda_time_grid": [rng.choice([0.0, 0.4, math.inf])], "lambda_unit_grid": [rng.choice([0.0, 0.4, math.inf])],
                 "lambda_nn_grid": [rng.choice([0.1, 1.0, math.inf])], "max_loocv_samples": rng.choice([2, 3, 5])}
            fault = None
        elif i % 7 == 6:
            p = {"lambda_time_grid": [rng.choice([0.0, 0.4, math.inf])], "lambda_unit_grid": [rng.choice([0.0, math.inf])],
                 "lambda_nn_grid": [rng.choice([0.1, 1.0, math.inf])], "max_loocv_samples": 1}
            fault = None
        else:
            k = 2 if rng.random() < 0.7 or method == "twostep" else 3
            p = {"lambda_time_grid": rng.sample([0.0, 0.2, 1.0, math.inf], rng.choice([1, 2, k])), "lambda_unit_grid": rng.sample([0.0, 0.3, 1.0, math.inf], rng.choice([1, 2, k])),
                 "lambda_nn_grid": rng.sample([0.05, 0.3, 2.0, math.inf], rng.choice([1, 2])), "max_loocv_samples": rng.choice([2, 3, 5, 8, 100])}
            x = rng.random()
            fault = None if x < 0.25 else {"t": rng.choice(["line", "line", "kernel"]), "pos": sorted(round(rng.random(), 5) for _ in range(rng.choice([1, 1, 2, 4, 12]))),
                                           "exc": rng.choice(["LinAlgError", "ValueError"]), "run": rng.choice([1, 2, 2])}
            if x > 0.93:
                fault = {"t": "all", "pos": [], "exc": "LinAlgError", "run": 1}
        p.update(method=method, seed=rng.randint(0, 9999), max_iter=rng.choice([3, 6, 12]), tol=1e-6, n_bootstrap=2, variance_method="bootstrap")
        return {"data": s, "gaps": gaps, "params": p, "fault": fault, "hold": "add" if i % 7 == 3 else i % 7 == 6,
                "cells": [round(rng.random(), 4) for _ in range(p["max_loocv_samples"] if i % 7 == 3 else 0)]}

    def frame(self, scn):
        df = D.make(scn["data"])
        for g in scn["gaps"]:
            c = df.index[df["d"] == 0]
            df = df.drop(c[int(g * len(c)) % len(c)])
        return df

    def execute(self, scn):
        out = core.Outcome()
        if scn["hold"] == "add":
            return self.additive(scn, out)
        return self.holdout(scn, out) if scn["hold"] else self.search(scn, out)

    def additive(self, scn, out):
        """The score of a set of held-out cells is the sum of the scores of its cells, whatever the order."""
        lib.arm_warnings()
        df = self.frame(scn)
        m = scn["params"]["method"]
        n_ctl = int((df["d"] == 0).sum())

        def score(cells):
            def script(name, a, k, v):
                if name == "choice" and isinstance(v, np.ndarray) and v.size == len(cells) and k.get("replace", a[2] if len(a) > 2 else True) is False \
                        and isinstance(a[0], (int, np.integer)) and a[0] == n_ctl:
                    return np.array(cells, dtype=v.dtype)
                return None
            rngseam.reset()
            rngseam.S.script, rngseam.S.armed = script, True
            try:
                s = float(fit(scn, df, max_loocv_samples=len(cells)).loocv_score)
                return s if rngseam.S.scripted else None
            finally:
                rngseam.reset()
        cells = sorted({min(int(q * n_ctl), n_ctl - 1) for q in scn["cells"]}, key=lambda c: (c * 7919) % 31)
        out.state = [m, "additive", len(cells), scn["params"]["lambda_time_grid"][0], scn["params"]["lambda_nn_grid"][0], len(scn["gaps"])]
        if len(cells) < 2:
            return out
        try:
            whole, back = score(cells), score(cells[::-1])
            single = [score([c]) for c in cells]
        except ValueError as e:
            out.probes["reference_refused"] += 1
            out.log("refused", repr(e))
            return out
        out.log(m, "additive", cells, whole, back, single)
        if whole is None or back is None or any(x is None for x in single):
            out.probes["draw_not_recognised"] += 1
            return out
        if not all(math.isfinite(x) for x in single + [whole, back]):
            out.probes["no_score"] += 1
            return out
        out.nontrivial = True
        out.probes["additive_sets_checked"] += 1
        if not close(whole, sum(single), 1e-6) or not close(whole, back, 1e-6):
            out.violate("score_not_sum_of_cells:" + m, "holding out cells %s scores %r (reversed order %r), one by one %s, which sums to %r; %s"
                        % (cells, whole, back, single, sum(single), scn["params"]))
        return out

    def holdout(self, scn, out):
        lib.arm_warnings()
        df = self.frame(scn).reset_index(drop=True)
        m = scn["params"]["method"]
        r0 = fit(scn, df)
        s0 = float(r0.loocv_score)
        if not math.isfinite(s0):
            out.probes["no_score"] += 1
            return out
        big, hits, slopes = 1e3, [], []
        for j in df.index[df["d"] == 0]:
            y = df["y"].copy()
            y[j] += big
            s = float(fit(scn, df.assign(y=y)).loocv_score)
            k = (math.sqrt(s) - math.sqrt(s0) * 0) / big if math.isfinite(s) else math.nan
            slopes.append(k)
            if abs(k - 1) < 2 * (1 + math.sqrt(s0)) / big:
                y2 = df["y"].copy()
                y2[j] += 2 * big
                s2 = float(fit(scn, df.assign(y=y2)).loocv_score)
                if abs(math.sqrt(s2) - math.sqrt(s) - big) < 1e-6 * big:
                    hits.append(int(j))
        out.nontrivial = True
        out.state = [m, "holdout", len(hits), scn["params"]["lambda_nn_grid"][0], len(df), len(scn["gaps"])]
        out.log(m, "holdout", s0, hits)
        out.probes["holdout_cells_probed"] += len(slopes)
        if not hits:
            out.violate("held_out_cell_leaks:" + m, "one control cell is held out, so the prediction error must move one to one with the outcome of that cell and its "
                        "prediction not at all; cells that do: %s; slopes %s; %s" % (hits, [round(k, 5) for k in slopes], scn["params"]))
        return out

    def search(self, scn, out):
        p, f = scn["params"], scn["fault"]
        m = p["method"]
        df = self.frame(scn)
        gt, gu, gn = ([float(x) for x in p[k]] for k in ("lambda_time_grid", "lambda_unit_grid", "lambda_nn_grid"))
        combos = list(itertools.product(gt, gu, gn))

        def ref():
            lib.arm_warnings()
            tracer.start(None)
            seam.reset()
            seam.S.armed = True
            try:
                r = pick(fit(scn, df))
            except Exception as e:  # noqa: BLE001
                return {"exc": repr(e)}
            finally:
                n = tracer.stop()
                k = seam.S.count
                callers = set(seam.S.callers)
                seam.reset()
            warns = sorted({re.sub(r"\d+", "#", w) for _, _, w in lib._WARN})
            tab = Table(scn, df)
            for c in combos + [DEFAULT]:
                tab(c)
            o = {"r": r, "lines": n, "kernels": k, "callers": callers, "tab": tab.memo, "warns": warns, "model": None}
            if m == "twostep":
                try:
                    o["model"] = descend(tab, gt, gu, gn)
                    o["mscore"] = tab.score(o["model"])
                except Tie:
                    o["model"] = "tie"
            return o
        o = core.in_child(ref)
        if "exc" in o:
            out.probes["reference_refused"] += 1
            return out
        tab = o["tab"]
        score = {c: (math.inf if math.isnan(tab[c]["score"]) else tab[c]["score"]) for c in combos}
        lib.arm_warnings()
        n0 = len(lib._WARN)
        exc = {"LinAlgError": np.linalg.LinAlgError, "ValueError": ValueError}
        st = {"left": [], "fired": 0, "solver": True}
        seam.reset()
        if f and f["t"] == "kernel":
            ks = {int(q * o["kernels"]) + j for q in f["pos"] for j in range(1, f["run"] + 1)}
            seam.S.plan = lambda name, k, kn: f["exc"] if k in ks else None
            seam.S.armed = True
        elif f and f["t"] == "all":
            seam.S.plan = lambda name, k, kn: "LinAlgError"
            seam.S.armed = True

        def handler(code, line):
            if st["left"] and tracer.T.steps >= st["left"][0] and not code.co_name.startswith("<") and tracer.safe_point():
                st["left"].pop(0)
                st["fired"] += 1
                st["solver"] = st["solver"] and (code.co_filename, code.co_qualname) in o["callers"]
                out.faults[f["exc"] + "(line)"] += 1
                raise exc[f["exc"]](MSG)
        if f and f["t"] == "line":
            st["left"] = [max(1, int(q * o["lines"])) for q in f["pos"]]
        tracer.start(handler if f and f["t"] == "line" else None)
        r, died = None, None
        try:
            r = fit(scn, df)
        except Exception as e:  # noqa: BLE001
            died = e
        finally:
            out.steps += tracer.stop()
            for kk, n, _ in seam.S.fired:
                st["fired"] += 1
                out.faults["%s(%s)" % (kk, n)] += 1
            seam.reset()
        warns = [w for _, _, w in lib._WARN[n0:]]
        new = [w for w in warns if re.sub(r"\d+", "#", w) not in o["warns"]]
        F = st["fired"]
        out.nontrivial = F > 0 or len(combos) > 1
        out.state = [m, len(gt), len(gu), len(gn), f and f["t"], min(F, 12), type(died).__name__, p["max_loocv_samples"]]
        out.log(m, F, type(died).__name__, r and pick(r), new)

        def bad(cls, msg):
            out.violate(cls + ":" + m, "TROP %s with %d failed fits inside (%s): %s" % ({k: v for k, v in p.items() if k not in ("n_bootstrap", "variance_method", "tol")}, F, f and f["t"], msg))
        if died is not None:
            if not F:
                bad("search_raises", "raised %r though every combination can be fitted" % (died,))
            return out
        g = pick(r)
        if any(re.search("svd", w, re.I) for w in new):
            out.probes["inner_fallback_disclosed"] += 1
            return out
        sel = g["lam"]
        if math.isnan(g["score"]) or not math.isfinite(g["score"]):
            out.probes["defaults"] += 1
            if sel != DEFAULT:
                bad("no_score_but_selected", "score %r, selected %s" % (g["score"], sel))
            if not any("default" in w.lower() for w in warns):
                bad("defaults_not_announced", "falls back to %s without saying so: %s" % (sel, new))
            alive = sum(math.isfinite(s) for s in score.values())
            if (m == "joint" or len(combos) == 1) and alive > F:
                bad("gave_up", "%d combinations can be scored, %d failures, yet none was used" % (alive, F))
            if m == "twostep" and not F and o["model"] != "tie" and math.isfinite(o.get("mscore", math.nan)):
                bad("gave_up", "the documented search ends at %s with score %r" % (o["model"], o["mscore"]))
            if not close(g["att"], tab[DEFAULT]["att"], 1e-7):
                bad("defaults_not_used", "effect %r, a fit with the defaults gives %r" % (g["att"], tab[DEFAULT]["att"]))
            return out
        if sel not in score:
            bad("outside_grid", "selected %s" % (sel,))
            return out
        if not close(g["score"], score[sel]):
            bad("score_wrong", "reports score %r for %s, which scores %r on its own" % (g["score"], sel, score[sel]))
        d = [k for k in g["eff"] if not close(g["eff"][k], tab[sel]["eff"].get(k, math.nan), 1e-7)]
        if d or not close(g["att"], tab[sel]["att"], 1e-7):
            bad("effect_not_from_selection", "effect %r with selected %s, a fit with these values gives %r" % (g["att"], sel, tab[sel]["att"]))
        if m == "joint":
            better = [c for c in combos if score[c] < g["score"] * (1 - 1e-9) - 1e-12]
        else:
            better = [c for c in combos if c[:2] == sel[:2] and score[c] < g["score"] * (1 - 1e-9) - 1e-12]
        if len(better) > F:
            bad("not_the_best", "selected %s (score %r) although %s score better: %s" % (sel, g["score"], better, [score[c] for c in better]))
        if better and not new and st["solver"]:  # only a solver can lose a combination outside a simulation
            bad("loss_not_announced", "lost %s to failures, no warning" % better)
        if m == "twostep" and not F and o["model"] != "tie":
            out.probes["search_path_checked"] += 1
            if not close(g["score"], o["mscore"]):
                bad("search_path", "selected %s (score %r), the documented search ends at %s (score %r)" % (sel, g["score"], o["model"], o["mscore"]))
        return out

    def shrink(self, scn):
        f = scn["fault"]
        if f and f["pos"]:
            for p in core.shrink_list(f["pos"]):
                yield dict(copy.deepcopy(scn), fault=dict(f, pos=p))
        if scn["gaps"]:
            yield dict(copy.deepcopy(scn), gaps=[])
        if not scn["hold"]:
            for k in ("lambda_time_grid", "lambda_unit_grid", "lambda_nn_grid"):
                if len(scn["params"][k]) > 1:
                    for p in core.shrink_list(scn["params"][k]):
                        if p:
                            s = copy.deepcopy(scn)
                            s["params"][k] = p
                            yield s
