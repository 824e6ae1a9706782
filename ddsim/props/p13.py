"""P13: a numerical failure is never silently turned into a different answer."""
import copy
import math

from .. import canon, core, lib, ops, story
from . import preload

NO_KERNELS = {"bacon", "power", "eq", "gen", "prep", "prepx", "pt", "ptr", "rank", "stagprep"}
EXTRA = ["cs", "cs", "ddd", "ddd", "trop", "honestx", "did", "sa", "sdid", "honest", "conv", "powerx"]


def nans(c):
    return sum(1 for v in canon.finite_leaves(c).values() if isinstance(v, float) and not math.isfinite(v))


def errors(c):
    """Failures reported inside the returned value: error entries, renderings that raise."""
    t = repr(c)
    return t.count("error_type") + t.count("'exc', ")


def counts(c):
    """Integer leaves (n_bootstrap, n_permutations, n_simulations, ...) by path."""
    return {p: v for p, v in canon.finite_leaves(c).items() if isinstance(v, int)}


def announced(ref, st):
    """How the returned value says that something was lost, or None."""
    seen = [w[1] for w in ref["warns"]]
    if any(w[1] not in seen for w in st.warns):
        return "warned"
    if nans(st.canon) > nans(ref["canon"]):
        return "nan"
    if errors(st.canon) > errors(ref["canon"]):
        return "error_entry"
    a, b = counts(ref["canon"]), counts(st.canon)
    if any(p in b and b[p] < a[p] for p in a):
        return "smaller_count"
    return None


class PROP(core.Property):
    ID = "P13"
    BUDGET = {"quick": (1800, 110), "thorough": (30000, 800)}
    RULE = ("A case is one public operation in which one to three numerical-kernel calls (LAPACK wrappers of numpy.linalg / scipy.linalg, scipy.optimize "
            "routines), or every call of one routine from some point on, fail with the exception that routine raises in practice, or (linprog) report "
            "non-convergence. The answer is compared with the fault-free answer of a pristine process. Non-trivial: a failure fired. Distinct: different "
            "(family, failing routine and place, outcome).")
    REAL = ["all of diff_diff (python backend)", "numpy", "pandas", "scipy", "matplotlib (Agg)"]
    STUB = ["failing calls of numpy.linalg, scipy.linalg, scipy.optimize"]
    ASSUMPTIONS = ["a kernel fails by raising LinAlgError, ValueError or RuntimeError as documented for it, or by reporting success=False (linprog)",
                   "an answer equal to the fault-free one within 1e-6 (relative) counts as unaffected"]

    def __init__(self):
        super().__init__()
        preload.library()

    def gen(self, rng, tier, i):
        fams = [f for f in ops.families() if f not in NO_KERNELS] + EXTRA
        fam = fams[i % len(fams)]
        for _ in range(4):
            op = ops.gen_fam(rng, fam)
            if fam not in ("cs", "ddd", "conv") or op["fit"].get("covariates"):
                break
        n = rng.choice([1, 1, 1, 2, 3])
        by_name = rng.random() < 0.5
        pos = sorted(round(rng.random(), 5) for _ in range(n))
        return {"op": op, "fault": {"t": "kernel", "pos": [] if by_name else pos, "pick": [[p, round(rng.random(), 5)] for p in pos] if by_name else [], "what": rng.choice(["exc", "exc", "exc", "noconv"]),
                                    "run": rng.choice([1, 1, 1, 2, 1000000])}}

    def execute(self, scn):
        out = core.Outcome()
        op = scn["op"]
        ref = lib.reference(op)
        if not ref["ok"] or not ref["kernels"]:
            out.probes["no_kernel_calls" if ref["ok"] else "reference_refused"] += 1
            return out
        lib.arm_warnings()
        st = story.perform(op, ref, scn["fault"])
        if not st.fired:
            return out
        out.nontrivial = True
        for f in st.fired[:50]:
            out.faults["%s(%s)" % (f[0], f[1])] += 1
        d = lib.same(ref, st.as_call(), rtol=1e-6)
        how = "raised" if not st.ok else "equal" if not d else announced(ref, st)
        out.log(op["fam"], [list(f) for f in st.fired[:20]], how, st.exc, canon.digest(st.canon))
        out.state = [op["fam"], [f[1] for f in st.fired[:4]], how]
        if how is None:
            out.violate("silent_degradation:" + op["fam"], "%s: after %s the call returned a different answer without any warning, NaN or reduced count: %s"
                        % (lib.short(op), [list(f) for f in st.fired[:4]], d))
        else:
            out.probes[how] += 1
        return out

    def shrink(self, scn):
        f = scn["fault"]
        for key in ("pos", "pick"):
            for p in core.shrink_list(f[key]):
                if p:
                    yield dict(copy.deepcopy(scn), fault=dict(f, **{key: p}))
        if f["run"] > 1:
            yield dict(copy.deepcopy(scn), fault=dict(f, run=1))
        for o in ops.shrink_op(scn["op"]):
            yield dict(copy.deepcopy(scn), op=o)
