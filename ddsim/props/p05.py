"""P05: one seed, one result - whatever the process did before, and in whichever process."""
import copy

from .. import canon, core, fresh, lib, ops, story
from . import preload


def seed_slot(op):
    if "seed" in op["params"]:
        return op["params"]
    if "seed" in op["fit"]:
        return op["fit"]
    return None


def draws(op):
    """Does this op certainly use its seed for something that shows in continuous output?"""
    f, p, a = op["fam"], op["params"], op["fit"]
    if op["data"].get("bad"):
        return False
    if f in ("did", "twfe"):
        return p["inference"] == "wild_bootstrap"
    if f in ("cs", "sa"):
        return p["n_bootstrap"] > 0
    if f == "trop":
        return p["variance_method"] == "bootstrap"
    if f == "powerx":
        return a["v"] != "curve"
    if f == "placebo":
        return a["tt"] == "permutation"
    if f == "sdid":
        return p["variance_method"] == "bootstrap" or op["data"]["kind"] == "factor"
    return f in ("wild", "perm", "simpow", "gen")


class PROP(core.Property):
    ID = "P05"
    BUDGET = {"quick": (800, 110), "thorough": (25000, 800)}
    RULE = ("A case is one public operation (mostly with a seeded random component) executed in a pristine process, then in a process with a random "
            "history (other operations, some failed by injected faults or interrupted; global RNGs reseeded and consumed), twice in a row, with another "
            "seed in between; a share of cases runs a batch of operations in a fresh interpreter with a different hash seed. Non-trivial: the operation "
            "returned and its history held at least one other operation or a fresh interpreter. Distinct: different (operation, history families).")
    REAL = ["all of diff_diff (python backend)", "numpy", "pandas", "scipy", "fresh CPython interpreters"]
    STUB = ["numerical-kernel failures and asynchronous exceptions in the history", "process identity (forked pristine images, hash seeds)"]
    ASSUMPTIONS = ["floating-point agreement to 1e-9 relative (set iteration order may permute exact summation order)"]

    def __init__(self):
        super().__init__()
        preload.library()
        from .. import tracer
        tracer._all_codes()

    def gen(self, rng, tier, i):
        fams = ops.families()
        st = sorted(ops.STOCHASTIC)
        if i % 25 == 7:
            batch = []
            for f in fams:
                for _ in range(2 if f in st else 1):
                    batch.append(ops.gen_fam(rng, f))
            rng.shuffle(batch)
            return {"mode": "fresh", "ops": batch[:14], "hashseed": rng.randint(1, 10 ** 6)}
        fam = st[i % len(st)] if rng.random() < 0.75 else rng.choice(fams)
        op = ops.gen_fam(rng, fam)
        slot = seed_slot(op)
        if slot is not None and rng.random() < 0.2:
            slot["seed"] = rng.choice([0, 0, 1, 2 ** 31 - 1])
        hist = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            h = ops.gen_fam(rng, fam if rng.random() < 0.5 else rng.choice(fams))
            hist.append({"op": h, "fault": story.gen_fault(rng, p_none=0.5)})
        return {"mode": "hist", "op": op, "hist": hist, "g1": rng.randint(0, 9999), "g2": rng.randint(0, 9999), "other": rng.randint(10001, 20000)}

    def execute(self, scn):
        import random
        import numpy as np
        out = core.Outcome()
        if scn["mode"] == "fresh":
            got = fresh.run_fresh(scn["ops"], scn["hashseed"])
            refs = [lib.reference(o) for o in scn["ops"]]
            out.faults["fresh_interpreter_other_hash_seed"] += 1
            for o, a, b in zip(scn["ops"], refs, got):
                d = lib.same(a, b)
                out.log(o["fam"], a["ok"], d)
                if d:
                    out.violate("differs_across_interpreters:" + o["fam"], "%s: pristine process vs fresh interpreter with PYTHONHASHSEED=%s: %s"
                                % (lib.short(o), scn["hashseed"], d))
            out.nontrivial = True
            out.state = [o["fam"] for o in scn["ops"]] + [scn["hashseed"]]
            return out
        op = scn["op"]
        ref = lib.reference(op)
        hrefs = [lib.reference(h["op"]) for h in scn["hist"]]
        lib.arm_warnings()
        np.random.seed(scn["g1"])
        random.seed(scn["g1"])
        for h, hr in zip(scn["hist"], hrefs):
            st = story.perform(h["op"], hr, h["fault"])
            for f in st.fired:
                out.faults[f[0]] += 1
            out.log("hist", h["op"]["fam"], st.ok, st.fired)
            out.steps += st.lines
        a = story.perform(op, ref)
        np.random.seed(scn["g2"])
        np.random.random(13)
        random.seed(scn["g2"])
        out.faults["global_rng_disturbed"] += 1
        slot = seed_slot(op)
        differs = None
        if slot is not None:
            differs = False
            for k in range(3):
                o2 = copy.deepcopy(op)
                seed_slot(o2)["seed"] = scn["other"] + k
                c = story.perform(o2, ref)
                if c.ok != a.ok or (c.ok and canon.diff(a.canon, c.canon)):
                    differs = True
                    break
        b = story.perform(op, ref)
        out.steps += a.lines + b.lines
        out.log("result", op["fam"], a.ok, canon.digest(a.canon))
        d = lib.same(ref, a.as_call())
        if d:
            out.violate("depends_on_process_history:" + op["fam"], "%s after %s differs from a pristine process: %s"
                        % (lib.short(op), [h["op"]["fam"] for h in scn["hist"]], d))
        d = lib.same(a.as_call(), b.as_call())
        if d and not out.violations:
            out.violate("repeat_differs:" + op["fam"], "%s run again in the same process (global RNGs reseeded, other seeds used in between): %s"
                        % (lib.short(op), d))
        if differs is False and a.ok and draws(op):
            # masked seed leaves (the echoed seed itself) do not count as a difference
            out.violate("seed_ignored:" + op["fam"], "%s gives the same result for four different seeds" % lib.short(op))
        out.probes["ok" if a.ok else "raised"] += 1
        out.nontrivial = a.ok and bool(scn["hist"])
        out.state = [op["fam"], op["params"], op["fit"], [h["op"]["fam"] for h in scn["hist"]]]
        return out

    def shrink(self, scn):
        if scn["mode"] == "fresh":
            for s in core.shrink_list(scn["ops"]):
                if s:
                    c = copy.deepcopy(scn)
                    c["ops"] = copy.deepcopy(s)
                    yield c
            return
        for s in core.shrink_list(scn["hist"]):
            c = copy.deepcopy(scn)
            c["hist"] = copy.deepcopy(s)
            yield c
        for i, h in enumerate(scn["hist"]):
            if h["fault"]:
                c = copy.deepcopy(scn)
                c["hist"][i]["fault"] = None
                yield c
        for o in ops.shrink_op(scn["op"]):
            c = copy.deepcopy(scn)
            c["op"] = o
            yield c
