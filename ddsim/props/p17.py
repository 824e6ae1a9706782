"""P17: results and estimators survive copying, pickling and a restart of the process."""
import base64
import copy
import json
import os
import pickle
import subprocess
import sys

from .. import canon, core, data as D, guard, lib, ops
from . import preload
from .p06 import FAMS, WEIGHT, view

HOW = ["fork", "fork", "deepcopy", "copy", "pickle"]


def uses(r, fam):
    """What a caller does with a result later on: everything it offers, and handing it to other parts of the library."""
    import diff_diff as dd
    import numpy as np
    out = {"render": ops.rendered(r)}

    def t(name, f):
        try:
            out[name] = f()
        except Exception as e:  # noqa: BLE001
            out[name] = ["exc", type(e).__name__, str(e)[:120]]
    cls = type(r).__name__
    if cls in ("MultiPeriodDiDResults", "CallawaySantAnnaResults"):
        t("honest", lambda: dd.HonestDiD(method="relative_magnitude", M=0.5).fit(r))
        t("sens", lambda: dd.HonestDiD(method="smoothness").sensitivity_analysis(r, M_grid=[0.0, 0.5]))
    if cls in ("MultiPeriodDiDResults", "CallawaySantAnnaResults", "SunAbrahamResults"):
        t("pre", lambda: dd.PreTrendsPower(alpha=0.1).fit(r, M=0.5))

        def plot():
            import matplotlib.pyplot as plt
            ax = dd.plot_event_study(r, show=False)
            try:
                return ops._artists(ax)
            finally:
                plt.close(ax.get_figure())
        t("plot", plot)
    if cls == "WildBootstrapResults":
        t("dist", lambda: np.array(r.bootstrap_distribution))
    return out


def use_est(est, fam):
    out = {"view": view(est)}
    if fam == "linreg" and getattr(est, "coefficients_", None) is not None:
        out["lr"] = [est.get_all_inference(), est.r_squared(), est.r_squared(adjusted=True), est.get_se(0)]
    for name in ("predict",):
        f = getattr(est, name, None)
        if f and fam in ("did", "twfe"):
            try:
                out[name] = f(D.make({"kind": "did", "seed": 1, "n": 10, "sd": 1.0, "eff": 1.0}))
            except Exception as e:  # noqa: BLE001
                out[name] = ["exc", type(e).__name__]
    return out


def play(state, acts, fam, params):
    """Carry out actions on the surviving objects; -> (observations, state)."""
    lib.arm_warnings()
    if state is None:
        state = {"est": ops.build({"fam": fam, "params": copy.deepcopy(params)}) if fam in ops.EST else None, "results": []}
    obs = []
    for a in acts:
        if a["do"] == "fit":
            op = {"fam": fam, "params": params, "data": a["data"], "fit": a["fit"]}
            o, r = lib.call(op, est=state["est"], render=False)
            obs.append(["fit", o["ok"], o.get("canon"), o.get("exc"), sorted(w[0] for w in o["warns"])])
            if o["ok"] and r is not None:
                state["results"].append(r)
        elif a["do"] == "set":
            state["est"].set_params(**copy.deepcopy(a["params"]))
            obs.append(["set", canon.canon(state["est"].get_params())])
        elif a["do"] == "use":
            if state["results"]:
                r = state["results"][min(int(a["which"] * len(state["results"])), len(state["results"]) - 1)]
                obs.append(["use", canon.canon(uses(r, fam))])
            if state["est"] is not None:
                obs.append(["est", canon.canon(use_est(state["est"], fam))])
    return obs, state


def look(state, fam):
    return canon.canon([[uses(r, fam) for r in state["results"]], use_est(state["est"], fam) if state["est"] is not None else None])


def segment(blob, acts, fam, params, last):
    st = pickle.loads(blob) if blob is not None else None
    obs, st = play(st, acts, fam, params)
    return obs, pickle.dumps(st), look(st, fam) if last else None


def fresh_segment(blob, acts, fam, params, last, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    msg = json.dumps({"blob": base64.b64encode(blob).decode() if blob is not None else None, "acts": acts, "fam": fam, "params": params, "last": last})
    p = subprocess.run([sys.executable, "-s", "-m", "ddsim.props.p17"], input=msg.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=env, cwd=core.VERIF, timeout=200)
    if p.returncode != 0:
        raise core.HarnessError("fresh interpreter failed: " + p.stderr.decode()[-1500:])
    return pickle.loads(p.stdout)


class PROP(core.Property):
    ID = "P17"
    BUDGET = {"quick": (700, 100), "thorough": (20000, 800)}
    RULE = ("A case is a history of 2-5 actions (fits, parameter changes, uses of results: renderings, sensitivity analyses, pre-trend power, plots, prediction) with crashes "
            "between actions at which only the pickled estimator and results survive and a pristine process (or a fresh interpreter with another hash seed) goes on, or at which "
            "they are replaced by copies; compared observation by observation with the same history in one process. After deep copies the originals are used up and overwritten. "
            "Non-trivial: something had been fitted before a crash or copy. Distinct: different histories.")
    REAL = ["all estimators and results of diff_diff (python backend)", "pickle, copy", "numpy", "pandas", "fresh CPython interpreters"]
    STUB = ["process crashes and restarts (forked pristine images; only pickled objects survive)"]
    ASSUMPTIONS = ["plain pickle protocol default; same library version before and after"]

    def __init__(self):
        super().__init__()
        preload.library()

    def gen(self, rng, tier, i):
        pool = [f for f in FAMS for _ in range(WEIGHT[f])]
        fn = ["wild", "perm", "loo", "suite", "simpow", "placebo", "honestx", "prex", "conv", "timing", "eq"]
        fam = rng.choice(fn) if i % 6 == 5 else pool[i % len(pool)]
        base = ops.gen_fam(rng, fam)
        if fam in ("suite", "simpow", "trop", "sdid"):
            base["data"] = dict(base["data"])
        acts = []
        n = rng.randint(2, 5)
        for j in range(n):
            x = rng.random()
            if j and x < 0.2 and fam in ops.EST and fam not in ("linreg", "power"):
                p = ops.gen_fam(rng, fam)["params"]
                ks = [k for k in sorted(p) if k not in ("inference", "cluster")]
                acts.append({"do": "set", "params": {k: p[k] for k in rng.sample(ks, rng.randint(1, min(3, len(ks))))}})
            elif j and x < 0.65:
                acts.append({"do": "use", "which": round(rng.random(), 3)})
            else:
                op = ops.gen_fam(rng, fam)
                acts.append({"do": "fit", "data": op["data"], "fit": op["fit"]})
        acts.append({"do": "use", "which": 0.999})
        cuts = sorted(rng.sample(range(1, len(acts)), rng.randint(1, min(2, len(acts) - 1))))
        how = [rng.choice(HOW) if rng.random() < 0.93 else "fresh" for _ in cuts]
        return {"fam": fam, "params": base["params"], "acts": acts, "cuts": cuts, "how": how, "hashseed": rng.randint(1, 10 ** 6)}

    def execute(self, scn):
        out = core.Outcome()
        fam, params, acts = scn["fam"], scn["params"], scn["acts"]

        def whole():
            obs, st = play(None, acts, fam, params)
            return obs, look(st, fam)
        want, wlook = core.in_child(whole)
        got, blob, glook = [], None, None
        live = None      # objects kept in this process between copies
        edges = [0] + scn["cuts"] + [len(acts)]
        fitted = False
        for k in range(len(edges) - 1):
            part, last = acts[edges[k]:edges[k + 1]], k == len(edges) - 2
            how = scn["how"][k - 1] if k else "start"
            if how in ("start", "fork", "fresh"):
                if live is not None:
                    blob, live = pickle.dumps(live), None
                if how == "fresh":
                    o, blob, glook = fresh_segment(blob, part, fam, params, last, scn["hashseed"])
                else:
                    o, blob, glook = core.in_child(segment, blob, part, fam, params, last)
            else:
                st = live if live is not None else pickle.loads(blob)
                if how == "pickle":
                    new = pickle.loads(pickle.dumps(st))
                elif how == "deepcopy":
                    new = copy.deepcopy(st)
                    # the originals go on living: used, refitted and scribbled over
                    old_obs, _ = play(st, [a for a in acts if a["do"] == "fit"][-1:], fam, params)
                    for r in st["results"]:
                        scribble(r)
                    if st["est"] is not None:
                        for v in vars(st["est"]).values():
                            scribble(v)
                    out.faults["originals_overwritten_after_deepcopy"] += 1
                else:
                    new = {"est": copy.copy(st["est"]), "results": [copy.copy(r) for r in st["results"]]}
                    if st["est"] is not None:   # refitting the original must not reach the copy
                        play({"est": st["est"], "results": []}, [a for a in acts if a["do"] == "fit"][-1:], fam, params)
                        out.faults["original_refitted_after_copy"] += 1
                o, live = play(new, part, fam, params)
                glook = look(live, fam) if last else None
                blob = None
            if k:
                out.faults["%s" % {"fork": "crash_restart", "fresh": "crash_restart_fresh_interpreter"}.get(how, how)] += 1
                out.nontrivial = out.nontrivial or fitted
            fitted = fitted or any(a["do"] == "fit" for a in part)
            got += o
        out.log(fam, scn["cuts"], scn["how"], canon.digest(got))
        out.state = [fam, [a["do"] for a in acts], scn["cuts"], scn["how"]]
        out.probes["observations_compared"] += len(got)
        for n, (a, b) in enumerate(zip(want, got)):
            d = canon.diff(a, b)
            if d:
                out.violate("differs_after_restart:" + fam, "%s, actions %s, cut at %s (%s): observation %d (%s) differs from the uninterrupted process: %s"
                            % (fam, [x["do"] for x in acts], scn["cuts"], scn["how"], n, a[0], d))
                return out
        d = canon.diff(wlook, glook)
        if d:
            out.violate("differs_after_restart:" + fam, "%s, actions %s, cut at %s (%s): objects at the end differ from the uninterrupted process: %s"
                        % (fam, [x["do"] for x in acts], scn["cuts"], scn["how"], d))
        return out

    def shrink(self, scn):
        for i in range(len(scn["cuts"])):
            if len(scn["cuts"]) > 1:
                c = copy.deepcopy(scn)
                del c["cuts"][i], c["how"][i]
                yield c
        for i in range(len(scn["acts"])):
            c = copy.deepcopy(scn)
            del c["acts"][i]
            c["cuts"] = [x - (x > i) for x in c["cuts"]]
            if c["acts"] and all(0 < x < len(c["acts"]) for x in c["cuts"]) and len(set(c["cuts"])) == len(c["cuts"]):
                yield c
        for i, a in enumerate(scn["acts"]):
            if a["do"] == "fit":
                for o in ops.shrink_op({"fam": scn["fam"], "params": {}, "data": a["data"], "fit": a["fit"]}):
                    c = copy.deepcopy(scn)
                    c["acts"][i]["data"], c["acts"][i]["fit"] = o["data"], o["fit"]
                    yield c


def scribble(o, depth=0):
    """Overwrite arrays and empty containers reachable from an object."""
    import numpy as np
    import pandas as pd
    if depth > 4 or o is None:
        return
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype.kind in "fiu":
            o[...] = 77
    elif isinstance(o, pd.DataFrame):
        for c in list(o.columns):
            o[c] = 77
    elif isinstance(o, dict):
        for v in o.values():
            scribble(v, depth + 1)
        o.clear()
    elif isinstance(o, list):
        for v in o:
            scribble(v, depth + 1)
        del o[:]
    elif type(o).__module__.startswith("diff_diff") and hasattr(o, "__dict__"):
        for v in vars(o).values():
            scribble(v, depth + 1)


def main():
    real = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    preload.library()
    m = json.loads(sys.stdin.read())
    blob = base64.b64decode(m["blob"]) if m["blob"] is not None else None
    core._write_all(real, pickle.dumps(segment(blob, m["acts"], m["fam"], m["params"], m["last"])))


if __name__ == "__main__":
    main()
