#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import importlib
import os
import sys

ENV = {
    "MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
}


def bootstrap():
    """Re-exec once so that the environment the interpreter starts with is ours."""
    if os.environ.get("DDSIM_BOOT") != "1":
        env = dict(os.environ)
        env.update(ENV)
        env.setdefault("PYTHONHASHSEED", "0")
        env["DDSIM_BOOT"] = "1"
        env.pop("DIFF_DIFF_BACKEND", None)
        env["DIFF_DIFF_BACKEND"] = "python"
        env.pop("PYTHONPATH", None)
        py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
        os.execve(py, [py, "-s"] + [os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    bootstrap()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from ddsim import core
    try:
        mod = importlib.import_module("ddsim.props." + a.prop.lower())
        prop = mod.PROP()
        rc = core.main(prop, a.tier, a.seed, a.replay)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
