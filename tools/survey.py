"""Run a batch and tally violation classes.  tools/survey.py P04 [runs] [seed]"""
import collections, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
if os.environ.get("DDSIM_BOOT") != "1":
    env = dict(os.environ); env.update(check.ENV); env.update(DDSIM_BOOT="1", PYTHONHASHSEED="0", DIFF_DIFF_BACKEND="python")
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", "-s"] + sys.argv, env)
import importlib
from ddsim import core
p = importlib.import_module("ddsim.props." + sys.argv[1].lower()).PROP()
p.fresh_violations = lambda out: []
n = int(sys.argv[2]) if len(sys.argv) > 2 else 500
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
res, _ = core.run_batch(p, seed, "quick", n, 900)
c = collections.Counter(); ex = {}; pr = collections.Counter(); fl = collections.Counter()
for i, o in res:
    if "error" in o or "timeout" in o:
        k = "ERROR " + (o.get("error") or "timeout").strip().splitlines()[-1][:200]; c[k] += 1; ex.setdefault(k, (i, (o.get("error") or "")[-1500:])); continue
    pr.update(o["probes"]); fl.update(o["faults"])
    for v in o["violations"]:
        c[v["cls"]] += 1; ex.setdefault(v["cls"], (i, v["msg"]))
print(len(res), "runs; probes", dict(pr), "faults", dict(fl))
for k, n in c.most_common():
    print(n, k, "| idx", ex[k][0], "|", ex[k][1][:900])
