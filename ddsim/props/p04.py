"""P04: nothing the caller passes in is ever modified, and results are not tied to it afterwards."""
import copy

import numpy as np
import pandas as pd

from .. import canon, core, guard, lib, ops, story
from .. import data as D
from . import p06, preload

ALIAS_EXEMPT = set()


def scribble(entries):
    """The caller reuses its buffers: overwrite the arrays, frames and lists it had passed in."""
    seen = set()
    for _, _, o, _ in entries:
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, np.ndarray) and o.dtype.kind in "fi" and o.flags.writeable:
            o *= -3
            o += 17
        elif isinstance(o, pd.DataFrame):
            for c in list(o.columns):
                if o[c].dtype.kind == "f":
                    a = o[c].to_numpy()
                    if a.flags.writeable:
                        a *= -3
                    o[c] = o[c] * 0 - 99.0
                elif o[c].dtype.kind == "i":
                    o[c] = 0
        elif isinstance(o, list):
            o.clear()


def live(op, r, est):
    """What the caller can read off a kept result, and off the estimator that produced it."""
    v = [r, ops.rendered(r)]
    if est is not None:
        v.append(p06.view(est))
        if op["fam"] == "linreg" and getattr(est, "coefficients_", None) is not None:
            v.append([est.r_squared(), est.r_squared(adjusted=True), est.get_all_inference()])
    return canon.canon(v)


class PROP(core.Property):
    ID = "P04"
    BUDGET = {"quick": (1800, 110), "thorough": (30000, 800)}
    RULE = ("A case is a sequence of 1-3 public operations, most on one shared input frame, some on awkward data, each possibly with an injected "
            "kernel failure or an asynchronous exception; every mutable argument (frames, arrays, lists, dicts, results objects, estimators) is "
            "fingerprinted before the call and compared after; finally the caller overwrites its own buffers and earlier results are re-read. "
            "Non-trivial: a fault fired, an operation raised, or several operations shared an input. Distinct: different (families, fault places, outcomes).")
    REAL = ["all of diff_diff (python backend)", "numpy", "pandas", "scipy", "matplotlib (Agg)"]
    STUB = ["numerical-kernel failures", "asynchronous exceptions at library source lines"]
    ASSUMPTIONS = []

    def __init__(self):
        super().__init__()
        preload.library()
        from .. import tracer
        tracer._all_codes()

    def gen(self, rng, tier, i):
        fams = ops.families()
        steps = []
        first = None
        for j in range(rng.choice([1, 1, 2, 3])):
            fam = fams[i % len(fams)] if j == 0 else rng.choice(fams)
            op = ops.gen_bad(rng, fam) if rng.random() < 0.25 else ops.gen_fam(rng, fam)
            if first is not None and rng.random() < 0.7 and first["data"]["kind"] in (ops.EST[fam][1] if fam in ops.EST else ops.FUN[fam][0]) \
                    and not (fam == "plotx" and op["data"]["kind"] != first["data"]["kind"]):
                op["data"] = copy.deepcopy(first["data"])
            first = first or op
            steps.append({"op": op, "fault": story.gen_fault(rng)})
        return {"steps": steps}

    def execute(self, scn):
        out = core.Outcome()
        refs = [lib.reference(s["op"]) for s in scn["steps"]]
        lib.arm_warnings()
        guard.reset()
        frames = {}
        kept = []
        desc = []
        shared = False
        for n, (s, ref) in enumerate(zip(scn["steps"], refs)):
            op = copy.deepcopy(s["op"])
            key = repr(sorted(op["data"].items()))
            if key in frames:
                shared = True
            else:
                frames[key] = D.make(op["data"])
                guard.G.entries.append(["(caller)", "input frame", frames[key], guard.fp(frames[key])])
            guard.G.on = True
            est = ops.build(op) if op["fam"] in ops.EST else None
            st = story.perform(op, ref, s["fault"], df=frames[key], est=est)
            guard.G.on = False
            how = "returned" if st.ok else "raised %s" % st.exc[0]
            for f in st.fired:
                out.faults[f[0]] += 1
            out.steps += st.lines
            desc.append([op["fam"], how, [f[:2] for f in st.fired]])
            out.probes["ok" if st.ok else "raised"] += 1
            mod = guard.modified()
            out.log(op["fam"], how, canon.digest(st.canon), st.fired, len(guard.G.entries), mod)
            if mod:
                out.violate("input_modified:" + mod[0].split(" (")[0], "%s (%s; faults %s): %s" % (lib.short(op), how, st.fired, "; ".join(mod[:4])))
                return out
            # parameters given to constructors belong to the caller as well
            if op["params"] != s["op"]["params"] or op["fit"] != s["op"]["fit"]:
                out.violate("argument_container_modified", "%s: a list or dict given to the library was changed: %s -> %s"
                            % (lib.short(s["op"]), [s["op"]["params"], s["op"]["fit"]], [op["params"], op["fit"]]))
                return out
            for m, (o2, r2, c2, e2) in enumerate(kept):
                now = live(o2, r2, e2)
                if now != c2 and repr(now) != repr(c2):
                    out.violate("earlier_result_changed:" + o2["fam"], "result of step %d (%s) changed while step %d (%s) ran: %s"
                                % (m, lib.short(o2), n, lib.short(op), canon.diff(c2, now)))
                    return out
            if st.ok and op["fam"] not in ALIAS_EXEMPT:
                kept.append((op, st.result, live(op, st.result, est), est))
        scribble(guard.G.entries)
        for o2, r2, c2, e2 in kept:
            now = live(o2, r2, e2)
            if repr(now) != repr(c2):
                out.violate("result_tied_to_input:" + o2["fam"], "result of %s changed after the caller overwrote its own inputs: %s"
                            % (lib.short(o2), canon.diff(c2, now)))
        out.probes["shared_frame"] += int(shared)
        out.nontrivial = shared or any(d[2] or d[1] != "returned" for d in desc)
        out.state = desc
        return out

    def shrink(self, scn):
        for s in core.shrink_list(scn["steps"]):
            if s:
                c = copy.deepcopy(scn)
                c["steps"] = copy.deepcopy(s)
                yield c
        for i, s in enumerate(scn["steps"]):
            if s["fault"]:
                c = copy.deepcopy(scn)
                c["steps"][i]["fault"] = None
                yield c
            for o in ops.shrink_op(s["op"]):
                c = copy.deepcopy(scn)
                c["steps"][i]["op"] = o
                yield c
