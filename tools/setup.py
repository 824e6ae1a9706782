#!/opt/venv/bin/python
"""Nothing to build: the checks import diff_diff from the working tree.  Fail early if they could not."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
assert sys.version_info[:2] >= (3, 12), "sys.monitoring needed"
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
env = dict(os.environ, DIFF_DIFF_BACKEND="python", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
subprocess.run([sys.executable, "-s", "-c", "import sys; sys.path.insert(0, %r); import diff_diff, matplotlib; print(diff_diff.__file__)" % REPO], check=True, env=env)
