"""P03: no public call leaves process-global state changed, however it ends."""
import copy

from .. import canon, core, lib, ops, pstate, story
from . import preload


class PROP(core.Property):
    ID = "P03"
    BUDGET = {"quick": (1500, 110), "thorough": (30000, 800)}
    RULE = ("A case is a sequence of 1-3 public operations (all estimators, diagnostics, prep, plotting, power, generators; some on awkward data), "
            "each possibly with an injected kernel failure or an asynchronous exception at a library source line; calls that change process state temporarily are also interrupted in between; the snapshot of process-global "
            "state is compared around every step. Non-trivial: a fault fired, or an operation raised, or the sequence had several operations. "
            "Distinct: different (families, fault places, outcomes).")
    REAL = ["all of diff_diff (python backend)", "numpy", "pandas", "scipy", "matplotlib (Agg)"]
    STUB = ["numerical-kernel failures", "asynchronous exceptions (KeyboardInterrupt, MemoryError, SystemExit) at library source lines"]
    ASSUMPTIONS = ["lazy one-off initialisation inside third-party packages is triggered before the first snapshot"]

    def __init__(self):
        super().__init__()
        preload.library()
        from .. import tracer
        tracer._all_codes()

    def gen(self, rng, tier, i):
        fams = ops.families()
        steps = []
        for j in range(rng.choice([1, 1, 2, 3])):
            fam = fams[i % len(fams)] if j == 0 else rng.choice(fams)
            op = ops.gen_bad(rng, fam) if rng.random() < 0.25 else ops.gen_fam(rng, fam)
            steps.append({"op": op, "more": [round(rng.random(), 6) for _ in range(4)], "fault": story.gen_fault(rng, kinds=("KeyboardInterrupt", "MemoryError", "SystemExit"))})
        return {"steps": steps, "filters": rng.choice(["always", "always", "error", "default"])}

    def execute(self, scn):
        import os
        import shutil
        import tempfile
        home, d = os.getcwd(), tempfile.mkdtemp(prefix="ddsim-p03-")
        os.chdir(d)         # an empty directory of its own to work in
        try:
            return self._execute(scn)
        finally:
            os.chdir(home)
            shutil.rmtree(d, ignore_errors=True)

    def _execute(self, scn):
        import random
        import warnings
        import numpy as np
        out = core.Outcome()
        import matplotlib.pyplot as plt
        bystander = plt.figure(num=77)     # somebody else's figure
        bystander.add_subplot().plot([0, 1], [2, 3])
        looks = pstate.figure_fp(bystander)
        refs = [lib.reference(s["op"]) for s in scn["steps"]]
        lib.arm_warnings()
        warnings.simplefilter(scn["filters"])
        np.random.seed(scn.get("_index", 0) % 2 ** 31)
        random.seed(scn.get("_index", 0))
        np.seterr(all="warn")
        before = pstate.snapshot()
        desc = []
        for s, ref in zip(scn["steps"], refs):
            op = s["op"]
            if ref["dirty"].get("process"):
                # the call changes process state and puts it back: interrupt it in between
                for f in s.get("more", ()):
                    st = story.perform(op, ref, {"t": "dline", "want": "process", "at": f, "exc": "KeyboardInterrupt"})
                    ch = pstate.changed(before, pstate.snapshot())
                    out.faults["interrupt_between_change_and_restore"] += len(st.fired)
                    out.log(op["fam"], "between", st.fired, ch)
                    if ch:
                        out.violate("global_state_changed:" + ",".join(ch), "%s (interrupted at %s) left changed: %s" % (lib.short(op), st.fired, ch))
                        return out
            st = story.perform(op, ref, s["fault"])
            after = pstate.snapshot()
            ch = pstate.changed(before, after)
            for f in st.fired:
                out.faults[f[0]] += 1
            out.steps += st.lines
            how = "returned" if st.ok else "raised %s" % st.exc[0]
            desc.append([op["fam"], how, [f[:2] for f in st.fired]])
            out.probes["ok" if st.ok else "raised"] += 1
            out.log(op["fam"], how, canon.digest(st.canon), st.fired, ch)
            if pstate.figure_fp(bystander) != looks:
                ch.append("another open figure")
            if ch:
                out.violate("global_state_changed:" + ",".join(ch), "%s (%s; faults %s) left changed: %s"
                            % (lib.short(op), how, st.fired, ch))
                before = after
        out.nontrivial = len(desc) > 1 or any(d[2] or d[1] != "returned" for d in desc)
        out.state = desc
        return out

    def shrink(self, scn):
        for s in core.shrink_list(scn["steps"]):
            if s:
                c = copy.deepcopy(scn)
                c["steps"] = copy.deepcopy(s)
                yield c
        for i, s in enumerate(scn["steps"]):
            if s.get("more"):
                for m in core.shrink_list(s["more"]):
                    c = copy.deepcopy(scn)
                    c["steps"][i]["more"] = m
                    yield c
            if s["fault"]:
                c = copy.deepcopy(scn)
                c["steps"][i]["fault"] = None
                yield c
            for o in ops.shrink_op(s["op"]):
                c = copy.deepcopy(scn)
                c["steps"][i]["op"] = o
                yield c
