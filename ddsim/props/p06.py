"""P06: what a fit returns depends only on the current parameters and data, never on the estimator's past."""
import copy

from .. import canon, core, lib, ops, story
from .. import data as D
from . import preload

FAMS = ["did", "twfe", "mp", "sdid", "cs", "sa", "ddd", "trop", "bacon", "honest", "pretrends", "power", "linreg"]
WEIGHT = {"trop": 3, "power": 1, "bacon": 1, "linreg": 2, "honest": 2, "pretrends": 2, "did": 5, "twfe": 4, "mp": 3, "sdid": 4, "cs": 6, "sa": 4, "ddd": 3}


def view(est):
    """Public fitted surface of an estimator."""
    out = {}
    for k, v in sorted(vars(est).items()):
        if k.endswith("_") and not k.startswith("_"):
            out[k] = v
    for name in ("summary", "get_params"):
        f = getattr(est, name, None)
        if callable(f):
            try:
                out["call:" + name] = f()
            except Exception as e:
                out["call:" + name] = ["exc", type(e).__name__]
    return canon.canon(out)


def overwrite(live, want):
    """The same frame object holding other values, when it has the same layout; otherwise a new frame."""
    if live.shape != want.shape or list(live.columns) != list(want.columns) or not (live.dtypes == want.dtypes).all() or not live.index.equals(want.index):
        return want.copy()
    for c in want.columns:
        live[c] = want[c].to_numpy().copy()
    return live if (live.dtypes == want.dtypes).all() and live.equals(want) else want.copy()


def ref_fit(op, params):
    """Outcome, estimator view and counts for a fresh estimator in a pristine process."""
    return lib.reference(op, params=params, render=False, view=view)


BAD = {"sdid": [("variance_method", ["jackknife", "Bootstrap", None])],
       "cs": [("control_group", ["never", None]), ("estimation_method", ["drdid", "DR"]), ("bootstrap_weights", ["normal"]), ("rank_deficient_action", ["ignore", "warn "]), ("base_period", ["fixed", None])],
       "sa": [("control_group", ["never", None]), ("rank_deficient_action", ["ignore", "warn "])],
       "ddd": [("estimation_method", ["drdid", "DR", None]), ("rank_deficient_action", ["ignore", None])],
       "trop": [("method", ["twosteps", None]), ("variance_method", ["placebo", None])],
       "bacon": [("weights", ["exactly", None])],
       "honest": [("method", ["sd", None]), ("M", [-0.5]), ("alpha", [0, 1, 1.5])],
       "pretrends": [("alpha", [0, 1, -0.1]), ("power", [0, 1.2]), ("violation_type", ["quadratic", "custom"])]}
NAMES = ["no_such_parameter_", "fit", "results_", "is_fitted_", "summary", "get_params", "__dict__", "Alpha", "_internal"]


def gen_refused(rng, fam, params, who):
    act = {"do": "unknown", "who": who}
    good = {k: v for k, v in ops.gen_fam(rng, fam)["params"].items()} if rng.random() < 0.5 else {}
    ks = sorted(good)
    act["good"] = {k: good[k] for k in rng.sample(ks, min(len(ks), 2))}
    if fam in BAD and rng.random() < 0.6:
        name, vals = rng.choice(BAD[fam])
        act["name"], act["bad"] = name, [rng.choice(vals)]
        act["good"].pop(name, None)
    else:
        act["name"], act["bad"] = rng.choice(NAMES), None
    return act


class PROP(core.Property):
    ID = "P06"
    BUDGET = {"quick": (900, 110), "thorough": (20000, 800)}
    RULE = ("A case is a history of 3-7 actions on one or two estimator objects of one class: set_params (random subsets), fits on different data and with "
            "different options (fresh frames, the caller's same frame object again, also after overwriting its values in place), refused fits (awkward data), fits broken by an injected kernel failure or interrupted at a source line, rejected unknown "
            "parameters. After every successful fit the result and the public fitted surface are compared with a fresh estimator built from the modelled "
            "parameters in a pristine process. Non-trivial: a compared fit had at least one earlier action on its estimator. Distinct: different histories.")
    REAL = ["all estimator classes of diff_diff (python backend)", "numpy", "pandas", "scipy"]
    STUB = ["numerical-kernel failures", "asynchronous exceptions at library source lines"]
    ASSUMPTIONS = ["reference: a fresh estimator constructed with the same parameters in a process forked from the freshly imported library"]

    def __init__(self):
        super().__init__()
        preload.library()
        from .. import tracer
        tracer._all_codes()

    def gen(self, rng, tier, i):
        pool = [f for f in FAMS for _ in range(WEIGHT[f])]
        fam = pool[i % len(pool)]
        n_est = rng.choice([1, 1, 1, 2])
        base = []
        for _ in range(n_est):
            base.append(ops.gen_fam(rng, fam)["params"])
        acts = []
        settable = fam not in ("linreg", "power")
        datas = []
        n = rng.randint(3, 7)
        for j in range(n):
            who = rng.randrange(n_est)
            x = rng.random()
            if x < 0.28 and settable and j < n - 1:
                p = ops.gen_fam(rng, fam)["params"]
                ks = sorted(p)
                ks = rng.sample(ks, rng.randint(1, max(1, min(len(ks), 4))))
                acts.append({"do": "set", "who": who, "params": {k: p[k] for k in ks}})
                continue
            if x < 0.34 and settable and j < n - 1:
                acts.append(gen_refused(rng, fam, base[who], who))
                continue
            op = ops.gen_bad(rng, fam) if x > 0.9 else ops.gen_fam(rng, fam)
            live = None
            y = rng.random()
            if datas and y < 0.6:
                k = rng.randrange(len(datas))
                op["data"] = copy.deepcopy(datas[k])
                if y < 0.3:        # the caller's own frame again, with other values written into it
                    live = k
                    op["data"]["seed"] = rng.randint(0, 10 ** 6)
                elif y < 0.45:     # the very same frame object again
                    live = k
            else:
                datas.append(op["data"])
                live = len(datas) - 1 if rng.random() < 0.6 else None
            acts.append({"do": "fit", "who": who, "data": op["data"], "fit": op["fit"], "live": live,
                         "fault": story.gen_fault(rng, p_none=0.72) if j < n - 1 else None})
        return {"fam": fam, "base": base, "acts": acts}

    def execute(self, scn):
        out = core.Outcome()
        fam = scn["fam"]
        model = [copy.deepcopy(b) for b in scn["base"]]
        # pass 1: model the parameters, get all references from pristine children
        refs = []
        for a in scn["acts"]:
            if a["do"] == "set":
                model[a["who"]].update(a["params"])
                _fix(fam, model[a["who"]])
                refs.append(copy.deepcopy(model[a["who"]]))
            elif a["do"] == "fit":
                op = {"fam": fam, "params": model[a["who"]], "data": a["data"], "fit": a["fit"]}
                refs.append(ref_fit(op, model[a["who"]]))
            else:
                refs.append(None)
        lib.arm_warnings()
        model = [copy.deepcopy(b) for b in scn["base"]]
        ests = [ops.build({"fam": fam, "params": copy.deepcopy(m)}) for m in model]
        touched = [0] * len(ests)
        kept = []
        frames, lives = {}, {}
        hist = []
        for n, (a, ref) in enumerate(zip(scn["acts"], refs)):
            who = a["who"]
            est = ests[who]
            if a["do"] == "set":
                model[who].update(a["params"])
                extra = _fix(fam, model[who])
                call = dict(a["params"])
                call.update(extra)
                r = est.set_params(**copy.deepcopy(call))
                if r is not est:
                    out.violate("set_params_return", "%s.set_params did not return the estimator" % fam)
                want = ops.build({"fam": fam, "params": copy.deepcopy(model[who])}).get_params()
                d = canon.diff(canon.canon(want), canon.canon(est.get_params()))
                hist.append("set%d%s" % (who, sorted(call)))
                out.log("set", who, sorted(call), d)
                if d:
                    out.violate("get_params_disagrees:" + fam, "%s after %s: get_params differs from a fresh estimator with the same parameters: %s (fresh %s, this %s)"
                                % (fam, hist, d, want, est.get_params()))
                    return out
                touched[who] += 1
                continue
            if a["do"] == "unknown":
                why = self.refused(out, fam, est, model[who], a)
                if why == "skip":
                    continue
                if why:
                    return out
                hist.append("unknown%d" % who)
                out.log("unknown", who)
                touched[who] += 1
                continue
            op = {"fam": fam, "params": model[who], "data": a["data"], "fit": a["fit"]}
            key = repr(sorted(a["data"].items()))
            if key not in frames:
                frames[key] = D.make(a["data"])
            df = frames[key].copy()
            if a.get("live") is not None:
                df = overwrite(lives.setdefault(a["live"], df), frames[key])
                lives[a["live"]] = df
            st = story.perform(op, ref, a["fault"], df=df, est=est, render=False)
            out.steps += st.lines
            for f in st.fired:
                out.faults[f[0]] += 1
            hist.append("fit%d:%s%s" % (who, "ok" if st.ok else st.exc[0], ":" + str([f[0] for f in st.fired]) if st.fired else ""))
            out.log("fit", who, st.ok, st.exc, st.fired, canon.digest(st.canon))
            pa = canon.diff(canon.canon(ops.build(op).get_params()), canon.canon(est.get_params())) if hasattr(est, "get_params") else None
            if pa:
                out.violate("fit_changed_parameters:" + fam, "%s: after %s the estimator's parameters changed: %s" % (fam, hist, pa))
                return out
            if not st.fired:
                d = lib.same(ref, st.as_call(), warns=True)
                if not d and st.ok:
                    d = canon.diff(ref["view"], view(est))
                    d = d and "public fitted attributes / summary: " + d
                if d:
                    out.violate("depends_on_history:" + fam, "%s with params %s: fit after %s differs from a fresh estimator: %s"
                                % (fam, {k: v for k, v in model[who].items() if v is not None}, hist[:-1], d))
                    return out
                if touched[who] or len(ests) > 1 and any(touched):
                    out.nontrivial = True
                    out.probes["compared_with_history"] += 1
            touched[who] += 1
            for m, (r2, c2) in enumerate(kept):
                now = canon.canon(r2)
                if repr(now) != repr(c2):
                    out.violate("earlier_result_changed:" + fam, "%s: result of fit %d changed during %s: %s" % (fam, m, hist, canon.diff(c2, now)))
                    return out
            if st.ok:
                kept.append((st.result, canon.canon(st.result)))
        out.state = [fam, hist]
        return out

    def refused(self, out, fam, est, params, a):
        """A set_params call that has to be refused: an unknown name, or a value the constructor refuses."""
        call = dict(a.get("good") or {})
        name = a.get("name", "no_such_parameter_")
        if a.get("bad") is not None:
            call[a["name"]] = a["bad"][0]
            try:
                ops.build({"fam": fam, "params": {**copy.deepcopy(params), **call}})
                return "skip"           # the constructor takes it
            except (ValueError, TypeError):
                pass
        else:
            if name in est.get_params():
                return "skip"
            call[name] = 1
        before = canon.canon(est.get_params())
        attrs = canon.canon({k: v for k, v in vars(est).items() if not k.startswith("_")})
        try:
            est.set_params(**copy.deepcopy(call))
        except (ValueError, AttributeError, TypeError):
            pass
        else:
            out.violate("%s_accepted:%s" % ("invalid_value" if a.get("bad") is not None else "unknown_parameter", fam),
                        "%s.set_params accepted %s although %s" % (fam, call, "a fresh estimator with these parameters is refused" if a.get("bad") is not None else "%r is not a parameter" % name))
            return "bad"
        out.probes["refused_set_params"] += 1
        d = canon.diff(before, canon.canon(est.get_params())) or canon.diff(attrs, canon.canon({k: v for k, v in vars(est).items() if not k.startswith("_")}))
        if d:
            out.violate("refused_set_params_changed_state:" + fam, "%s: the refused set_params(%s) changed the estimator: %s" % (fam, call, d))
            return "bad"
        return None

    def shrink(self, scn):
        for i in range(len(scn["acts"])):
            c = copy.deepcopy(scn)
            del c["acts"][i]
            if c["acts"]:
                yield c
        for i, a in enumerate(scn["acts"]):
            if a.get("fault"):
                c = copy.deepcopy(scn)
                c["acts"][i]["fault"] = None
                yield c
            if a["do"] == "set" and len(a["params"]) > 1:
                for k in a["params"]:
                    c = copy.deepcopy(scn)
                    del c["acts"][i]["params"][k]
                    yield c
            if a["do"] == "fit":
                for o in ops.shrink_op({"fam": scn["fam"], "params": {}, "data": a["data"], "fit": a["fit"]}):
                    c = copy.deepcopy(scn)
                    c["acts"][i]["data"], c["acts"][i]["fit"] = o["data"], o["fit"]
                    yield c
        if len(scn["base"]) > 1:
            c = copy.deepcopy(scn)
            c["base"] = c["base"][:1]
            for a in c["acts"]:
                a["who"] = 0
            yield c


def _fix(fam, p):
    """Keep modelled parameter sets valid; returns extra keys that had to be set."""
    extra = {}
    if fam in ("did", "twfe") and p.get("inference") == "wild_bootstrap" and p.get("cluster") is None:
        p["cluster"] = "cl"
        extra["cluster"] = "cl"
    return extra
