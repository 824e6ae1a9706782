#!/opt/venv/bin/python
"""determinism.py [RUNS] [PROP ...]: the same seeds give the same event logs in every process.

Runs the first RUNS scenarios of each property under several (worker count, PYTHONHASHSEED) pairs, each pair in an interpreter of its own, and
compares the event-log hash of every run.  Prints the runs that differ; exits 1 if there are any."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PAIRS = [(8, "0"), (3, "0"), (8, "41"), (5, "random")]

INNER = r'''
import importlib, json, sys
sys.path.insert(0, %r)
from ddsim import core
prop = importlib.import_module("ddsim.props." + sys.argv[1].lower()).PROP()
res, _ = core.run_batch(prop, int(sys.argv[3]), "quick", int(sys.argv[2]), 3000.0, workers=int(sys.argv[4]))
print("HASHES " + json.dumps({str(i): [o.get("log_hash"), bool(o.get("error")), len(o.get("violations") or [])] for i, o in res}))
sys.stdout.flush()
import os; os._exit(0)
''' % HERE


def one(prop, runs, seed, workers, hs):
    sys.path.insert(0, HERE)
    import check
    env = dict(os.environ, **check.ENV)
    env.update(DDSIM_BOOT="1", DIFF_DIFF_BACKEND="python", PYTHONHASHSEED=hs)
    env.pop("PYTHONPATH", None)
    p = subprocess.run([sys.executable, "-s", "-c", INNER, prop, str(runs), str(seed), str(workers)], env=env, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    for ln in p.stdout.splitlines():
        if ln.startswith("HASHES "):
            return json.loads(ln[7:])
    raise SystemExit("no answer from %s: %s" % (prop, p.stderr[-1500:]))


def main():
    runs = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    props = sys.argv[2:] or ["P%02d" % i for i in range(1, 18)]
    worst = 0
    for prop in props:
        base, bad = None, []
        for w, hs in PAIRS:
            h = one(prop, runs, 7, w, hs)
            if base is None:
                base = h
            bad += [(w, hs, i, base.get(i), h.get(i)) for i in sorted(set(base) | set(h), key=int) if base.get(i) != h.get(i)]
        print("%s: %d runs x %d processes, %d differ %s" % (prop, len(base), len(PAIRS), len(bad), bad[:4]), flush=True)
        worst |= bool(bad)
    return int(worst)


if __name__ == "__main__":
    sys.exit(main())
