"""Simulation core: seeds, forked single-run executions, minimiser, replay, evidence.

One integer decides everything: a run's scenario is a pure function of
(property, VERIF_SEED, index) and the execution is a pure function of
(scenario, code under test).  Every run executes in its own process, forked from
a pristine image in which diff_diff has been imported but never called, so no
run can see state left behind by another one.
"""
import collections
import hashlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class HarnessError(Exception):
    """The harness, not the code under test, is at fault."""


class SimCrash(BaseException):
    """The simulated process died here; nothing after this point executes."""


def derive(*parts):
    """Stable 63-bit integer from arbitrary printable parts."""
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


def digest(obj):
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, default=repr).encode()
    ).hexdigest()[:16]


class Outcome:
    """What one run produced."""

    def __init__(self):
        self.violations = []          # dicts: cls, key, msg
        self.events = []              # recorded history (strings / lists)
        self.faults = collections.Counter()   # fault kinds that actually fired
        self.probes = collections.Counter()   # rare conditions reached
        self.state = None             # hashable description of what was reached
        self.simtime = 0.0
        self.steps = 0
        self.nontrivial = False

    def log(self, *ev):
        self.events.append(list(ev))

    def violate(self, cls, msg, key=None):
        self.violations.append({"cls": cls, "key": key or cls, "msg": str(msg)[:2000]})

    def to_dict(self):
        return {
            "violations": self.violations,
            "log_hash": digest(self.events),
            "n_events": len(self.events),
            "events": self.events[-60:],
            "faults": dict(self.faults),
            "probes": dict(self.probes),
            "state": digest(self.state if self.state is not None else self.events),
            "simtime": self.simtime,
            "steps": self.steps,
            "nontrivial": bool(self.nontrivial),
        }


def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


def run_isolated(execute, scn, timeout=240.0):
    """Execute one scenario in a forked child.  Returns an outcome dict, or a
    dict with 'error' (harness error) / 'timeout'."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            os.dup2(null, 1)
            try:
                out = execute(scn).to_dict()
            except BaseException:  # noqa: BLE001 - anything escaping is ours
                out = {"error": traceback.format_exc()}
            data = json.dumps(out, default=repr).encode()
            _write_all(w, struct.pack(">Q", len(data)) + data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5.0))
        if ready:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            buf += chunk
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {"timeout": timeout}
    if len(buf) < 8:
        return {"error": "child died without an answer, status %r" % (status,)}
    return json.loads(bytes(buf[8:]).decode())


def in_child(fn, *args, timeout=200.0):
    """Run fn(*args) in a forked copy of this process image; return its (pickled) value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                val = ("ok", fn(*args))
            except BaseException:  # noqa: BLE001
                val = ("err", traceback.format_exc())
            _write_all(w, pickle.dumps(val))
        finally:
            os._exit(0)
    os.close(w)
    buf = bytearray()
    deadline = time.monotonic() + timeout
    while True:
        ready, _, _ = select.select([r], [], [], 5.0)
        if ready:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
        elif time.monotonic() > deadline:
            os.kill(pid, signal.SIGKILL)
            break
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise HarnessError("reference child gave no answer")
    tag, val = pickle.loads(bytes(buf))
    if tag == "err":
        raise HarnessError("reference child failed:\n" + val)
    return val


class Budget:
    def __init__(self, seconds):
        self.t0 = time.monotonic()
        self.seconds = seconds

    def left(self):
        return self.seconds - (time.monotonic() - self.t0)


def _worker(prop, indices, seed, tier, budget, wfd, timeout):
    """Runs in a forked worker: executes its share of the scenarios in order."""
    for i in indices:
        if budget.left() <= 0:
            _send(wfd, {"stop": i})
            break
        rng = random.Random(derive(prop.ID, seed, i))
        scn = prop.gen(rng, tier, i)
        scn["_seed"] = seed
        scn["_index"] = i
        t = time.monotonic()
        out = run_isolated(prop.execute, scn, timeout)
        _send(wfd, {"i": i, "out": out, "dt": time.monotonic() - t})
    _send(wfd, {"done": True})
    os._exit(0)


def _send(fd, obj):
    data = pickle.dumps(obj)
    _write_all(fd, struct.pack(">Q", len(data)) + data)


def run_batch(prop, seed, tier, n_runs, wall, workers=8, timeout=240.0, on_result=None):
    """Run scenarios 0..n_runs-1.  Returns list of (index, outcome) in index order."""
    budget = Budget(wall)
    fds = {}
    pids = []
    for w in range(workers):
        idx = list(range(w, n_runs, workers))
        r, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for f in fds:
                    os.close(f)
                _worker(prop, idx, seed, tier, budget, wfd, timeout)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(4)
        os.close(wfd)
        fds[r] = bytearray()
        pids.append(pid)
    results = {}
    done = 0
    stopped = False
    stop_at_violation = None
    while fds:
        ready, _, _ = select.select(list(fds), [], [], 5.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                os.close(fd)
                del fds[fd]
                continue
            buf = fds[fd]
            buf += chunk
            while len(buf) >= 8:
                (ln,) = struct.unpack(">Q", bytes(buf[:8]))
                if len(buf) < 8 + ln:
                    break
                msg = pickle.loads(bytes(buf[8:8 + ln]))
                del buf[:8 + ln]
                if "i" in msg:
                    results[msg["i"]] = msg["out"]
                    if on_result:
                        on_result(msg["i"], msg["out"])
                    if stop_at_violation is None and prop.fresh_violations(msg["out"]):
                        # enough to report; let nobody start on much more
                        stop_at_violation = time.monotonic()
                elif "done" in msg:
                    done += 1
                elif "stop" in msg:
                    stopped = True
        if stop_at_violation is not None and time.monotonic() - stop_at_violation > 5.0:
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            break
    for fd in list(fds):
        os.close(fd)
    for p in pids:
        os.waitpid(p, 0)
    early = stop_at_violation is not None
    if done < workers and not early:
        results[-1] = {"error": "only %d of %d workers finished" % (done, workers)}
    return sorted(results.items()), stopped


def minimise(prop, scn, cls, wall=90.0, timeout=240.0):
    """Greedy shrinking: keep any smaller scenario with the same violation class."""
    budget = Budget(wall)
    best = scn
    best_out = None
    tried = set()
    progress = True
    n = 0
    while progress and budget.left() > 0:
        progress = False
        for cand in prop.shrink(best):
            if budget.left() <= 0:
                break
            d = digest({k: v for k, v in cand.items() if not k.startswith("_")})
            if d in tried:
                continue
            tried.add(d)
            n += 1
            out = run_isolated(prop.execute, cand, timeout)
            if any(v["cls"] == cls for v in prop.fresh_violations(out)):
                best, best_out = cand, out
                progress = True
                break
    return best, best_out, n


# ----------------------------------------------------------------- generic shrink
def shrink_list(lst):
    """Smaller versions of a list: halves removed, then single elements removed."""
    n = len(lst)
    if n > 3:
        yield lst[: n // 2]
        yield lst[n // 2:]
    for i in range(n):
        yield lst[:i] + lst[i + 1:]


def known_findings(prop_id):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == prop_id]


def main(prop, tier, seed, replay=None):
    t0 = time.monotonic()
    if replay:
        with open(replay) as f:
            rec = json.load(f)
        out = run_isolated(prop.execute, rec["scenario"])
        fv = prop.fresh_violations(out)
        print(json.dumps({k: out.get(k) for k in ("violations", "log_hash", "error", "timeout")}, indent=1))
        if "error" in out or "timeout" in out:
            return 2
        same = any(v["cls"] == rec["violation"]["cls"] for v in fv)
        exact = out["log_hash"] == rec["log_hash"]
        print("replay: same violation class: %s, identical event log: %s" % (same, exact))
        if same:
            print("VIOLATION property=%s replay=%s" % (prop.ID, replay))
            return 1
        return 0

    n_runs, wall = prop.BUDGET[tier]
    n_runs = int(os.environ.get("VERIF_RUNS", n_runs))
    print("check %s tier=%s VERIF_SEED=%d runs<=%d" % (prop.ID, tier, seed, n_runs), flush=True)
    results, stopped = run_batch(prop, seed, tier, n_runs, wall,
                                 workers=int(os.environ.get("VERIF_WORKERS", "8")))
    t_runs = time.monotonic() - t0
    errors = [(i, o) for i, o in results if "error" in o]
    timeouts = [(i, o) for i, o in results if "timeout" in o]
    ok = [(i, o) for i, o in results if "error" not in o and "timeout" not in o]
    faults, probes = collections.Counter(), collections.Counter()
    states, nontriv = set(), 0
    simtime, steps = 0.0, 0
    bad = []
    known_hit = {}
    for i, o in ok:
        faults.update(o["faults"])
        probes.update(o["probes"])
        simtime += o["simtime"]
        steps += o["steps"]
        if o["nontrivial"]:
            nontriv += 1
            states.add(o["state"])
        for v in o["violations"]:
            k = prop.known_key(v)
            if k is not None:
                known_hit.setdefault(k, []).append(i)
        if prop.fresh_violations(o):
            bad.append((i, o))

    # determinism audit on a sample of this very batch
    audit, mismatch = 0, []
    for i, o in ok[:: max(1, len(ok) // 6)][:6]:
        if bad or time.monotonic() - t0 > wall + 60:
            break
        scn = scenario(prop, seed, tier, i)
        o2 = run_isolated(prop.execute, scn)
        audit += 1
        if o2.get("log_hash") != o["log_hash"]:
            mismatch.append(i)

    for e in known_findings(prop.ID):
        # each listed finding has a scenario of its own, executed on every run
        if e.get("scenario"):
            o = run_isolated(prop.execute, e["scenario"])
            for v in o.get("violations", []):
                k = prop.known_key(v)
                if k is not None:
                    known_hit.setdefault(k, []).append("witness")
        if e["key"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop.ID, e["what"]))

    rc = 0
    replay_path = None
    if bad:
        i, o = bad[0]
        v = prop.fresh_violations(o)[0]
        scn = scenario(prop, seed, tier, i)
        first = json.loads(json.dumps(scn))
        print("violation found at index %d: %s\n  %s" % (i, v["cls"], v["msg"]), flush=True)
        best, best_out, tried = minimise(prop, scn, v["cls"])
        if best_out is None:
            best_out = run_isolated(prop.execute, best)
        fv = [x for x in prop.fresh_violations(best_out) if x["cls"] == v["cls"]] or [v]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay_path = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (prop.ID, seed, i))
        with open(replay_path, "w") as f:
            json.dump({"property": prop.ID, "seed": seed, "index": i, "tier": tier,
                       "violation": fv[0], "scenario": best, "original_scenario": first,
                       "log_hash": best_out.get("log_hash"), "events": best_out.get("events"),
                       "shrink_attempts": tried}, f, indent=1)
        print("minimised after %d attempts: %s" % (tried, fv[0]["msg"]))
        print("minimised scenario: %s" % json.dumps({k: x for k, x in best.items()})[:3000])
        print("VIOLATION property=%s replay=%s" % (prop.ID, replay_path), flush=True)
        rc = 1
    elif errors or timeouts or mismatch or not ok:
        for i, o in (errors + timeouts)[:3]:
            print("HARNESS ERROR at index %s: %s" % (i, o.get("error") or "timeout"), file=sys.stderr)
        if mismatch:
            print("HARNESS ERROR: event log differs on re-execution of %s" % mismatch, file=sys.stderr)
        rc = 2

    samples = []
    for i, o in (ok[:2] + [x for x in ok if x[1]["nontrivial"]][:2])[:3]:
        samples.append({"index": i, "scenario": scenario(prop, seed, tier, i),
                        "faults": o["faults"], "events_tail": o["events"][-8:],
                        "log_hash": o["log_hash"]})
    wall_s = time.monotonic() - t0
    ev = {
        "property": prop.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(ok),
            "distinct_nontrivial": len(states),
            "rule": prop.RULE,
            "samples": json.loads(json.dumps(samples, default=repr)),
            "exhaustive": False,
            "nontrivial_runs": nontriv,
            "runs_per_hour": int(len(ok) / max(t_runs, 1e-9) * 3600),
            "seeds_per_hour": int(len(ok) / max(t_runs, 1e-9) * 3600),
            "simulated_seconds": round(simtime, 3),
            "simulated_steps": steps,
            "faults_injected": dict(faults),
            "probes": dict(probes),
            "determinism_audit": {"re_executed": audit, "mismatching": len(mismatch)},
            "stopped_by_wall_budget": bool(stopped),
            "real_components": prop.REAL,
            "stubbed_components": prop.STUB,
            "known_findings_hit": {k: len(v) for k, v in known_hit.items()},
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall_s, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print("%s: %d runs, %d non-trivial, %d distinct states, %.0f runs/h, faults %s, probes %s, %.1fs, rc=%d"
          % (prop.ID, len(ok), nontriv, len(states), ev["coverage"]["runs_per_hour"], dict(faults), dict(probes), wall_s, rc))
    return rc


def scenario(prop, seed, tier, i):
    rng = random.Random(derive(prop.ID, seed, i))
    scn = prop.gen(rng, tier, i)
    scn["_seed"] = seed
    scn["_index"] = i
    return scn


class Property:
    """Base class of the per-property modules."""
    ID = None
    BUDGET = {"quick": (400, 150), "thorough": (4000, 800)}
    RULE = ""
    REAL = []
    STUB = []
    ASSUMPTIONS = []

    def __init__(self):
        self._known = {e["key"] for e in known_findings(self.ID)}

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def execute(self, scn):
        raise NotImplementedError

    def shrink(self, scn):
        return ()

    def known_key(self, v):
        return v["key"] if v["key"] in self._known else None

    def fresh_violations(self, out):
        return [v for v in out.get("violations", []) if self.known_key(v) is None]

