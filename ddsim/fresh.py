"""Runs ops in a brand-new interpreter (other hash seed): python -m ddsim.fresh < ops.json > pickle"""
import json
import os
import pickle
import subprocess
import sys

from . import core


def run_fresh(opl, hashseed, timeout=150):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, "-s", "-m", "ddsim.fresh"], input=json.dumps(opl).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env, cwd=core.VERIF, timeout=timeout)
    if p.returncode != 0:
        raise core.HarnessError("fresh interpreter failed: " + p.stderr.decode()[-1500:])
    return pickle.loads(p.stdout)


def main():
    real = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    from .props import preload
    preload.library()
    from . import lib
    lib.arm_warnings()
    opl = json.loads(sys.stdin.read())
    res = [lib.call(o)[0] for o in opl]
    core._write_all(real, pickle.dumps(res))


if __name__ == "__main__":
    main()
