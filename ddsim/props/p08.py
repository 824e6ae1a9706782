"""P08: concurrent calls from several threads behave as if run one at a time."""
import copy

from .. import canon, core, lib, ops, pstate, sched as schedmod, story, tracer
from .. import data as D
from ..sched import Sched
from . import preload


PLOTS = ("plot", "plotx")      # pyplot's figure registry is itself process-global and not thread-safe


class PROP(core.Property):
    ID = "P08"
    BUDGET = {"quick": (1100, 110), "thorough": (20000, 800)}
    RULE = ("A case is 2-3 caller threads each performing one random public operation (own estimator; the input frame may be "
            "shared; often the same call on other numbers), run 2-4 times, interleaved at diff_diff source lines by a seeded preemption list or "
            "by holding one thread at one of its distinct lines while another runs through or up to a line of its own (always where the first call writes to module-level state, should it). Non-trivial: at least one preemption "
            "took place inside library code. Distinct: different (operation families, sequence of switches).")
    REAL = ["all of diff_diff (python backend)", "numpy", "pandas", "scipy", "matplotlib (Agg)"]
    STUB = ["OS thread scheduler (one thread runs at a time, switches only where the seed says)"]
    ASSUMPTIONS = ["switches happen between source lines of diff_diff; numpy/pandas/scipy internals run atomically",
                   "each thread uses its own estimator object",
                   "at most one of the concurrent calls draws (matplotlib.pyplot is documented as not thread-safe)"]

    def __init__(self):
        super().__init__()
        preload.library()
        tracer._all_codes()

    def gen(self, rng, tier, i):
        n = rng.choice([2, 2, 2, 3])
        fams = [f for f in ops.families()]
        first = ops.gen_fam(rng, fams[i % len(fams)] if rng.random() < 0.7 else rng.choice(sorted(ops.EST)))
        out = [first]
        share = rng.random() < 0.6
        twin = rng.random() < 0.5
        for j in range(n - 1):
            if twin and j == 0:
                # same call, same shapes, other numbers: what a shared buffer or cache would mix up
                op = copy.deepcopy(first)
                op["data"]["seed"] = rng.randint(0, 10 ** 6)
                out.append(op)
                continue
            if rng.random() < 0.45:
                op = ops.gen_fam(rng, first["fam"])
            else:
                op = ops.gen_fam(rng, rng.choice(fams))
            if share and first["data"]["kind"] in (ops.EST[op["fam"]][1] if op["fam"] in ops.EST else ops.FUN[op["fam"]][0]):
                op["data"] = copy.deepcopy(first["data"])
            out.append(op)
        plots = [o for o in out if o["fam"] in PLOTS]
        for o in plots[1:]:
            out.remove(o)
        while len(out) < 2:
            out.append(ops.gen_fam(rng, rng.choice([f for f in fams if f not in PLOTS])))
        return {"ops": out, "share": share, "rounds": [self.gen_round(rng, j) for j in range(rng.choice([2, 3, 4]))]}

    @staticmethod
    def gen_round(rng, j):
        if rng.random() < 0.6:
            # hold the first thread at one of its distinct lines while the next one runs - through, or up to a line of its own
            at = round(rng.random(), 6)
            inner = None if rng.random() < 0.5 else at if rng.random() < 0.5 else round(rng.random(), 6)
            return {"hold": rng.choice(["uline", "uline", "dline"]), "at": at, "inner": inner, "tail": [0]}
        k = rng.choice([1, 1, 2, 3, 6, 20, 80])
        return {"switches": sorted([round(rng.random(), 6), rng.randint(0, 2)] for _ in range(k)), "tail": [rng.randint(0, 2) for _ in range(3)]}

    def execute(self, scn):
        out = core.Outcome()
        opl = scn["ops"]
        refs = [lib.reference(o, kept=True) for o in opl]
        lib.arm_warnings()
        traces = []
        rounds = list(scn["rounds"])
        w = refs[0]["writes"]
        if w:
            # the first call changes something the library keeps between calls: hold it right there
            out.probes["module_state_written"] += 1
            rounds += [{"hold": "step", "at": s + d, "inner": inner, "tail": [0]} for s in w[:: max(1, len(w) // 4)][:4] for d, inner in ((0, None), (1, None), (0, w[0]))]
        for rd in rounds:
            traces.append(self.round(out, scn, rd, refs))
            if out.violations:
                break
        out.state = [[o["fam"] for o in opl], traces]
        return out

    def round(self, out, scn, rd, refs):
        opl = scn["ops"]
        total = sum(r["lines"] for r in refs)
        if "hold" in rd:
            step = (lambda ref, x: x) if rd["hold"] == "step" else lambda ref, x: story.line_step(ref, {"t": rd["hold"], "at": x})
            s0 = step(refs[0], rd["at"])
            sw = [[s0, 0]]
            if rd["inner"] is not None:
                sw.append([s0 + step(refs[1], rd["inner"]), 0])
        else:
            sw = [[1 + int(f * total), c] for f, c in rd["switches"]]
        sched = Sched(sw, rd["tail"], max_steps=40 * total + 10 ** 6)
        schedmod.ACTIVE = sched
        frames = {}
        got = [None] * len(opl)
        for i, o in enumerate(opl):
            key = repr(sorted(o["data"].items())) if scn["share"] else i
            if key not in frames:
                frames[key] = pstate.Guarded(D.make(o["data"]), "frame of op %d" % i)

        def body(i, o, fr):
            def go():
                oo, _ = lib.call(o, df=fr.obj)
                got[i] = oo
            return go
        before = pstate.snapshot()
        for i, o in enumerate(opl):
            key = repr(sorted(o["data"].items())) if scn["share"] else i
            sched.spawn("t%d" % i, body(i, o, frames[key]))
        tracer.start(lambda code, line: sched.yield_point(0))
        try:
            sched.run()
        finally:
            tracer.stop()
        for t in sched.tasks:
            if isinstance(t.error, schedmod.Deadlock) or sched.deadlocked:
                out.violate("deadlock", "threads wait for each other for ever: %s" % [o["fam"] for o in opl])
                return
            if t.error is not None:
                raise core.HarnessError("thread error %r" % (t.error,))
        after = pstate.snapshot()
        fams = [o["fam"] for o in opl]
        out.steps += sched.step
        out.log("trace", [t[:3] for t in sched.trace])
        out.log("results", [canon.digest(g) for g in got])
        real = [t for t in sched.trace if t[3] != "end"]
        out.nontrivial = out.nontrivial or bool(real)
        out.faults["preemption"] += len(real)
        if len(frames) < len(opl):
            out.probes["shared_frame"] += 1
        for i, (a, b) in enumerate(zip(refs, got)):
            d = lib.same(a, b, warns=True)
            if d:
                out.violate("thread_interference:" + fams[i], "%s run beside %s gave a different outcome than alone: %s"
                            % (lib.short(opl[i]), [f for j, f in enumerate(fams) if j != i], d))
            out.probes["ok" if b["ok"] else "raised"] += 1
        for key, g in frames.items():
            if g.changed():
                out.violate("shared_input_modified", "%s: %s was modified by concurrent calls" % (fams, g.name))
        ch = pstate.changed(before, after)
        if ch:
            out.violate("process_state_left_changed", "%s under interleaving left changed: %s" % (fams, ch))
        return [t[:3] for t in sched.trace]

    def shrink(self, scn):
        for r in core.shrink_list(scn["rounds"]):
            if r:
                yield dict(copy.deepcopy(scn), rounds=copy.deepcopy(r))
        for j, rd in enumerate(scn["rounds"]):
            for s in core.shrink_list(rd.get("switches", [])):
                c = copy.deepcopy(scn)
                c["rounds"][j]["switches"] = s
                yield c
            if rd.get("inner") is not None:
                c = copy.deepcopy(scn)
                c["rounds"][j]["inner"] = None
                yield c
        if len(scn["ops"]) > 2:
            for i in range(len(scn["ops"])):
                c = copy.deepcopy(scn)
                del c["ops"][i]
                yield c
        for i, o in enumerate(scn["ops"]):
            for smaller in ops.shrink_op(o):
                c = copy.deepcopy(scn)
                c["ops"][i] = smaller
                yield c
