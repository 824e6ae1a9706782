"""Which diff_diff lines does the op catalogue reach?  tools/cover.py [runs per family] [families...]"""
import collections, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
if os.environ.get("DDSIM_BOOT") != "1":
    env = dict(os.environ); env.update(check.ENV); env.update(DDSIM_BOOT="1", PYTHONHASHSEED="0", DIFF_DIFF_BACKEND="python")
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", "-s"] + sys.argv, env)
from ddsim import core, ops, lib, tracer
from ddsim.props import preload
preload.library(); tracer._all_codes()

def run_fam(args):
    fam, n = args
    lib.arm_warnings()
    n_ = os.open(os.devnull, os.O_WRONLY); os.dup2(n_, 1)
    hit = set(); exc = collections.Counter()
    tracer.start(lambda c, l: hit.add((os.path.basename(c.co_filename), l)))
    for i in range(n):
        op = (ops.gen_bad if i % 4 == 3 else ops.gen_fam)(random.Random(core.derive("cov", fam, i)), fam)
        o, _ = lib.call(op)
        if not o["ok"]:
            exc[str(o["exc"])[:150]] += 1
    tracer.stop()
    return fam, hit, exc

if __name__ == "__main__":
    import multiprocessing as mp
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 12
    fams = sys.argv[2:] or ops.families()
    with mp.get_context("fork").Pool(8) as p:
        rs = p.map(run_fam, [(f, n) for f in fams], chunksize=1)
    allh = set()
    for f, h, e in rs:
        allh |= h
        if e: print(f, dict(e))
    tot = collections.defaultdict(set)
    for c in tracer._all_codes():
        for _, _, l in c.co_lines():
            if l and l != c.co_firstlineno: tot[os.path.basename(c.co_filename)].add(l)
    for f in sorted(tot):
        miss = sorted(tot[f] - {l for ff, l in allh if ff == f})
        print("%-26s %4d/%4d" % (f, len(tot[f]) - len(miss), len(tot[f])), end=" ")
        rng = []; 
        for l in miss:
            if rng and l - rng[-1][1] <= 2: rng[-1][1] = l
            else: rng.append([l, l])
        print(" ".join("%d-%d" % (a, b) if a != b else str(a) for a, b in rng))
