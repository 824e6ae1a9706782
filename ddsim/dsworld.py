"""Workload, reference model and oracle for the dataset loaders (P01, P02)."""
import hashlib
import importlib.util
import os
import sys

from . import core, simio
from .core import Outcome, SimCrash
from .sched import Sched
from . import sched as schedmod

DATASETS = ["card_krueger", "castle_doctrine", "divorce_laws", "mpdta"]
FILES = {"card_krueger": "card_krueger.csv", "castle_doctrine": "castle.csv",
         "divorce_laws": "divorce.csv", "mpdta": "mpdta.csv"}
BY_FILE = {v: k for k, v in FILES.items()}
# raw (upstream) column names and the public names promised by the docs
RAW = {
    "card_krueger": ["sheet", "state", "chain", "emp_pre", "emp_post", "wage_pre", "wage_post"],
    "castle_doctrine": ["state", "sid", "year", "effyear", "homicide_rate", "population"],
    "divorce_laws": ["state", "stfips", "year", "unilateral", "divorce_rate", "suicide_rate"],
    "mpdta": ["countyreal", "year", "lpop", "lemp", "first.treat", "treat"],
}
WANT = {
    "card_krueger": ["store_id", "state", "chain", "treated", "emp_change"],
    "castle_doctrine": ["state_id", "year", "first_treat", "cohort", "treated"],
    "divorce_laws": ["state_id", "year", "first_treat", "cohort", "treated"],
    "mpdta": ["countyreal", "year", "first_treat", "cohort"],
}
_MARK = "srv_mark"


def _h(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:4], "big")


def nrows(ds, ver):
    return 30 + _h("n", ds, ver) % 260


def render(url, ver):
    """Body the simulated server serves for version `ver` of the file."""
    ds = BY_FILE[url]
    lines = [",".join(RAW[ds] + [_MARK, "row_id", "chk", "note"])]
    n = nrows(ds, ver)
    for r in range(n):
        x = _h(ds, ver, r)
        if ds == "card_krueger":
            cells = [r + 1, "NJ" if r % 3 else "PA", "bk", 10 + x % 9, 12 + x % 7, 4.25, 5.05]
        elif ds == "castle_doctrine":
            st = r // 10
            eff = "" if st % 2 else 2003 + st % 4
            cells = ["S%02d" % st, st, 2000 + r % 10, eff, 3.5 + x % 5, 1000 + x % 999]
        elif ds == "divorce_laws":
            st = r // 10
            cells = ["S%02d" % st, st, 1968 + r % 10, int(st % 2 == 0 and r % 10 >= 5), 2.5 + x % 4, 5.1]
        else:
            cells = [r // 5, 2003 + r % 5, 11.5, 9.5, [0, 2004, 2006, 2007][(r // 5) % 4], int((r // 5) % 4 > 0)]
        note = "Łódź-%d" % (x % 97) if r % 7 == 0 else "n%d" % (x % 97)
        lines.append(",".join(str(c) for c in cells) + ",%s:%d,%d,%d,%s" % (ds, ver, r, x, note))
    return ("\n".join(lines) + "\n").encode("utf-8")


def frame_digest(df):
    import pandas as pd
    h = hashlib.sha256()
    h.update(repr(list(df.columns)).encode())
    h.update(pd.util.hash_pandas_object(df, index=True).values.tobytes())
    return h.hexdigest()[:16]


def classify(ds, df, embedded):
    """-> ('v', n) | ('embedded',) | ('bad', why)"""
    try:
        if _MARK not in df.columns:
            if embedded.get(ds) == frame_digest(df):
                return ("embedded",)
            return ("bad", "frame is neither a served version nor the embedded data (%d rows, columns %s)"
                    % (len(df), list(df.columns)[:8]))
        marks = set(str(m) for m in df[_MARK])
        if len(marks) != 1:
            return ("bad", "rows of different downloads mixed: %s" % sorted(marks)[:4])
        d, v = marks.pop().rsplit(":", 1)
        if d != ds:
            return ("bad", "dataset %s returned the rows of %s" % (ds, d))
        v = int(v)
        if len(df) != nrows(ds, v):
            return ("bad", "torn: %d of %d rows of version %d" % (len(df), nrows(ds, v), v))
        if [int(x) for x in df["row_id"]] != list(range(len(df))):
            return ("bad", "rows missing or reordered in version %d" % v)
        for r, c in enumerate(df["chk"]):
            if int(c) != _h(ds, v, r):
                return ("bad", "cell altered in row %d of version %d" % (r, v))
        for r, nt in enumerate(df["note"]):
            x = _h(ds, v, r)
            want = "Łódź-%d" % (x % 97) if r % 7 == 0 else "n%d" % (x % 97)
            if str(nt) != want:
                return ("bad", "text altered in row %d of version %d: %r" % (r, v, nt))
        miss = [c for c in WANT[ds] if c not in df.columns]
        if miss:
            return ("bad", "documented columns missing: %s" % miss)
        why = derived_wrong(ds, df)
        if why:
            return ("bad", why)
        return ("v", v)
    except Exception as e:  # malformed frame
        return ("bad", "malformed frame: %r" % (e,))


def derived_wrong(ds, df):
    """The documented convenience columns, recomputed from the served cells."""
    n = len(df)

    def eq(col, want):
        got = [float(x) for x in df[col]]
        return all(abs(a - b) < 1e-9 for a, b in zip(got, want))
    if ds == "card_krueger":
        if not eq("treated", [1.0 if r % 3 else 0.0 for r in range(n)]):
            return "treated flag wrong"
        if not eq("emp_change", [float(b) - float(a) for a, b in zip(df["emp_pre"], df["emp_post"])]):
            return "emp_change wrong"
    elif ds == "castle_doctrine":
        ft = [0 if (r // 10) % 2 else 2003 + (r // 10) % 4 for r in range(n)]
        if not eq("first_treat", ft) or not eq("cohort", ft):
            return "first_treat/cohort wrong"
        if not eq("treated", [1.0 if f and 2000 + r % 10 >= f else 0.0 for r, f in enumerate(ft)]):
            return "treated flag wrong"
    elif ds == "divorce_laws":
        ft = []
        for r in range(n):
            st = r // 10
            has = st % 2 == 0 and n - st * 10 > 5        # a state's sixth row switches on
            ft.append(1973 if has else 0)
        if not eq("first_treat", ft) or not eq("cohort", ft):
            return "first_treat/cohort wrong"
        if not eq("treated", [float((r // 10) % 2 == 0 and r % 10 >= 5) for r in range(n)]):
            return "treated flag wrong"
    else:
        ft = [[0, 2004, 2006, 2007][(r // 5) % 4] for r in range(n)]
        if not eq("first_treat", ft) or not eq("cohort", ft):
            return "first_treat/cohort wrong"
    return None


def fresh_module():
    """A new process image of diff_diff.datasets (module-level state and all)."""
    path = os.path.join(core.REPO, "diff_diff", "datasets.py")
    name = "diff_diff.datasets"
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    old = sys.modules.get(name)
    sys.modules[name] = mod
    try:
        spec.loader.exec_module(mod)
    finally:
        if old is not None:
            sys.modules[name] = old
        else:
            sys.modules.pop(name, None)
    return mod


def embedded_digests():
    """Embedded fallback frames, obtained in a child with no network and no cache."""
    def ex(_):
        out = Outcome()
        os.environ["HOME"] = simio.SIM_HOME
        w = simio.World(Sched([]), out, [], [])
        w.net_up = False
        simio.install(w)
        m = fresh_module()
        out.events = [[ds, frame_digest(m.load_dataset(ds))] for ds in DATASETS]
        return out
    o = core.run_isolated(ex, {})
    if "events" not in o:
        return {}
    return {k: v for k, v in o["events"]}


class Op:
    __slots__ = ("kind", "ds", "force", "inv", "ret", "result", "exc", "faults", "contacted", "served",
                 "crashed", "tid", "hung", "t0", "t1", "others", "netfault", "net_down")


def execute(scn, embedded, want):
    """Run one scenario; `want` is 'P01' or 'P02' and selects the oracle reported."""
    out = Outcome()
    os.environ["HOME"] = simio.SIM_HOME
    sys.unraisablehook = lambda *_: None
    sched = Sched(scn["switches"], scn["tail"])
    schedmod.ACTIVE = sched
    w = simio.World(sched, out, scn["faults"], scn["crashes"])
    w.locale = scn.get("locale", "utf-8")
    w.versions = _Versions({d: 1 for d in DATASETS})
    w.render = lambda url, ver: render(url.rsplit("/", 1)[-1], ver)
    publish_log = {d: [(0, 1)] for d in DATASETS}   # (seq, version)
    simio.install(w)
    hist = []
    digests = {}
    seq = [0]

    def tick():
        seq[0] += 1
        return seq[0]

    class Incarnation:
        def __init__(self):
            self.n = 0
            self.module = None
            self.members = {}

    pubs = scn["publishes"]     # list of [op_seq, ds or '*net-down'/'*net-up']

    def server_actions():
        n = seq[0]
        for at, what in pubs:
            if at == n:
                if what == "*down":
                    w.net_up = False
                elif what == "*up":
                    w.net_up = True
                else:
                    w.versions.cur[what] += 1
                    publish_log[what].append((n, w.versions.cur[what]))
                out.log("server", what)

    procs = scn["procs"]
    incs = []

    def boot(pi):
        inc = incs[pi]
        inc.n += 1
        was = w.frozen
        w.frozen = True
        try:
            inc.module = fresh_module()
        finally:
            w.frozen = was
        inc.members = {}

    def run_op(module, p, op, o):
        if op[0] == "load":
            fn = getattr(module, "load_" + op[1])
            return fn(force_download=bool(op[2])) if op[2] else fn()
        if op[0] == "load_dataset":
            return module.load_dataset(op[1], force_download=bool(op[2]))
        if op[0] == "clear":
            return module.clear_cache()
        raise core.HarnessError(op)

    import contextlib
    import io as _io
    sink = _io.StringIO()

    def thread(pi, ti, ops):
        def body():
            inc = incs[pi]
            t = sched.me()
            my_inc = None
            p = None
            for op in ops:
                if my_inc != inc.n or p is None or p.dead:
                    if p is not None and p.dead and my_inc == inc.n:
                        boot(pi)                 # restart after a crash
                        out.probes["restarted"] += 1
                    p = simio.Proc(inc.module)
                    p.tid = t.tid
                    inc.members[ti] = p
                    p.group_kill = lambda inc=inc: [setattr(q, "dead", True) for q in inc.members.values()]
                    my_inc = inc.n
                    w.procs[t.tid] = p
                o = Op()
                o.kind, o.ds, o.force, o.tid = op[0], op[1] if len(op) > 1 else None, bool(op[2]) if len(op) > 2 else False, t.tid
                o.inv = tick()
                server_actions()
                p.op_faults, p.contacted, p.hung = [], [], False
                p.running = True
                o.crashed, o.exc, o.result, o.hung = False, None, None, False
                o.t0 = w.now
                o.net_down = not w.net_up
                out.log("inv", t.tid, op)
                try:
                    r = run_op(p.module, p, op, o)
                    if p.dead:
                        o.crashed = True
                    elif o.kind != "clear":
                        o.result = classify(o.ds, r, embedded)
                        if o.result[0] == "v":
                            digests.setdefault((o.ds, o.result[1]), {})[frame_digest(r)] = (o.force, len(p.contacted))
                except SimCrash:
                    o.crashed = True
                except simio.SimHang as e:
                    o.hung = True
                    o.exc = e
                except Exception as e:  # noqa: BLE001
                    o.exc = e
                    if p.dead:
                        o.crashed = True
                p.running = False
                o.ret = tick()
                server_actions()
                o.t1 = w.now
                o.faults = list(p.op_faults)
                o.contacted = list(p.contacted)
                o.net_down = o.net_down or not w.net_up or "partition" in o.faults
                out.log("ret", t.tid, o.kind, o.ds, o.force, o.result, type(o.exc).__name__ if o.exc else None,
                        o.crashed, o.faults)
                hist.append(o)
        return body

    for pi, threads in enumerate(procs):
        incs.append(Incarnation())
        boot(pi)
        for ti, ops in enumerate(threads):
            sched.spawn("p%dt%d" % (pi, ti), thread(pi, ti, ops))
    w.frozen = False
    with contextlib.redirect_stdout(sink):
        sched.run()
    w.frozen = True
    for t in sched.tasks:
        if t.error is not None:
            raise core.HarnessError("client thread died: %r" % (t.error,))
    if len(procs) + max(len(x) for x in procs) > 2:
        out.probes["concurrent_clients"] += 1

    # ---- quiescence: faults stopped, network healthy ---------------------
    w.net_up = True
    final = []

    def quiesce():
        m = fresh_module()
        p = simio.Proc(m)
        t = sched2.me()
        w.procs[t.tid] = p
        used = sorted({op[1] for th in procs for ops in th for op in ops if op[0] != "clear"})
        for ds in used:
            for force in (False, True, False):
                p.contacted, p.op_faults = [], []
                t0 = w.now
                try:
                    df = m.load_dataset(ds, force_download=force)
                    r = classify(ds, df, embedded)
                    if r[0] == "v":
                        digests.setdefault((ds, r[1]), {})[frame_digest(df)] = (force, len(p.contacted))
                except Exception as e:  # noqa: BLE001
                    r = ("exc", "%s: %s" % (type(e).__name__, e))
                final.append((ds, force, r, list(p.contacted), w.now - t0))
                out.log("final", ds, force, list(r), len(p.contacted))
    sched2 = Sched([])
    w.sched = sched2
    sched2.spawn("q", quiesce)
    with contextlib.redirect_stdout(sink):
        sched2.run()
    if sched2.tasks[0].error is not None and not isinstance(sched2.tasks[0].error, simio.SimHang):
        raise core.HarnessError("quiescence died: %r" % (sched2.tasks[0].error,))

    out.simtime = w.now
    out.steps += sched.step
    out.state = [sorted(out.faults), [(o.kind, o.ds, o.force, o.result and o.result[0], o.crashed, tuple(o.faults)) for o in hist],
                 [(a, b) for _, a, b, _ in sched.trace][:40]]
    if sched.trace:
        out.probes["context_switches"] += len(sched.trace)
    check(out, hist, final, publish_log, want, scn)
    if want == "P01":
        for (ds, v), ds_set in sorted(digests.items()):
            out.probes["same_version_compared"] += 1
            if len(ds_set) > 1:
                out.violate("cached_copy_differs", "version %d of %s was returned with %d different contents"
                            % (v, ds, len(ds_set)))
    return out


class _Versions:
    """url -> current version, keyed by the file the URL names."""

    def __init__(self, cur):
        self.cur = cur

    def get(self, url):
        ds = BY_FILE.get(url.rsplit("/", 1)[-1])
        return None if ds is None else self.cur[ds]


NETF = ("dns_failure", "conn_refused", "partition", "connect_timeout", "ssl_error", "http_", "server_closed",
        "garbled", "header_stall", "body_stall", "undecodable", "truncated_body", "conn_reset", "early_eof")


def isnet(f):
    return any(f.startswith(p) for p in NETF)


def check(out, hist, final, publish_log, want, scn):
    maxver = {d: publish_log[d][-1][1] for d in publish_log}
    # values that may sit in the cache, per dataset
    loads = [o for o in hist if o.kind != "clear"]
    clears = [o for o in hist if o.kind == "clear"]

    def ver_range(ds, a, b):
        cur = 1
        vals = set()
        for s, v in publish_log[ds]:
            if s <= a:
                cur = v
            elif s <= b:
                vals.add(v)
        vals.add(cur)
        return vals

    power = out.faults.get("crash_power", 0)
    if want == "P01":
        for o in loads:
            if o.crashed or o.result is None:
                continue
            if o.result[0] == "bad":
                out.violate("torn_or_foreign_data", "load_%s(force=%s) returned %s; faults so far %s"
                            % (o.ds, o.force, o.result[1], dict(out.faults)))
            elif o.result[0] == "v" and o.result[1] > maxver[o.ds]:
                out.violate("torn_or_foreign_data", "version from the future")
        for ds, force, r, contacted, dt in final:
            if r[0] == "bad":
                out.violate("torn_or_foreign_data", "after the faults stopped, load_%s(force=%s) returned %s"
                            % (ds, force, r[1]))
        # an acknowledged download stays readable until superseded, cleared or lost to power failure
        for o in loads:
            if o.crashed or o.force or o.result is None or o.faults:
                continue
            prior = [x for x in loads if x.ds == o.ds and not x.crashed and x.result is not None and x.ret < o.inv
                     and x.result[0] == "v" and any(c[1] == x.result[1] for c in x.contacted) and not x.faults]
            if not prior:
                continue
            last = max(prior, key=lambda x: x.ret)
            # anything since (or overlapping) that may legitimately have changed the cache
            dirty = [x for x in hist if x is not last and x is not o and x.ret > last.inv and x.inv < o.ret
                     and (x.kind == "clear" or (x.ds == o.ds and (x.crashed or x.faults or x.contacted or x.force)))]
            if dirty or power:
                continue
            out.probes["durable_read_checked"] += 1
            if o.result != last.result:
                out.violate("acknowledged_download_lost",
                            "load_%s() returned %s although %s had been downloaded, cached and not cleared"
                            % (o.ds, o.result, last.result))
        # clear_cache that succeeded: older content must not come back
        for o in loads:
            if o.crashed or o.result is None or o.result[0] != "v":
                continue
            cl = [c for c in clears if not c.crashed and c.exc is None and c.ret < o.inv]
            if not cl or power:
                continue
            c = max(cl, key=lambda x: x.inv)
            # every load concurrent with or after the clear may have re-populated the cache
            src = [x for x in loads if x.ds == o.ds and x.ret > c.inv and x.inv < o.ret
                   and (x.contacted or x.crashed or x.faults or x.ret == o.ret)]
            ok = set()
            for x in src:
                ok |= {v for _, v in x.contacted if v}
            wide = any(x.crashed for x in src)
            readers = any(x.inv < c.ret and x.ret > c.inv for x in loads if x is not o and x.ds == o.ds)
            if wide or readers:
                continue
            out.probes["clear_checked"] += 1
            if o.result[1] not in ok:
                out.violate("cleared_data_resurrected",
                            "load_%s() returned version %d after clear_cache() completed, without any new download"
                            % (o.ds, o.result[1]))
        return

    # ---- P02: availability, freshness, progress ---------------------------
    for o in hist:
        if o.crashed:
            continue
        if o.hung:
            out.violate("load_hangs", "load_%s(force=%s) waits for ever on a silent server (no timeout)" % (o.ds, o.force))
            continue
        if o.exc is not None and o.kind != "clear":
            out.violate("load_failed", "load_%s(force=%s) raised %s: %s under faults %s, although cached or embedded data exist"
                        % (o.ds, o.force, type(o.exc).__name__, o.exc, o.faults))
        elif o.exc is not None:
            if not any(f in ("EACCES", "EIO", "EROFS") for f in o.faults):
                out.violate("clear_failed", "clear_cache() raised %s: %s with no disk fault" % (type(o.exc).__name__, o.exc))
        if o.t1 - o.t0 > 300 and len(hist) < 3:
            out.violate("load_slow", "%.0f simulated seconds" % (o.t1 - o.t0))
    for o in loads:
        if o.crashed or o.result is None or o.result[0] == "bad" or o.hung:
            continue
        healthy = not any(isnet(f) for f in o.faults) and not o.net_down
        if healthy and o.force:
            out.probes["forced_fresh_checked"] += 1
            ok = ver_range(o.ds, o.inv, o.ret)
            if o.result[0] != "v" or o.result[1] not in ok:
                out.violate("stale_forced_download", "load_%s(force_download=True) returned %s with a healthy server holding %s (disk faults %s)"
                            % (o.ds, o.result, sorted(ok), o.faults))
        if healthy and not o.force and o.result[0] == "embedded":
            out.violate("embedded_despite_network", "load_%s() fell back to embedded data with a healthy server (disk faults %s)"
                        % (o.ds, o.faults))
        # cached copy present, no disk trouble: must be used when the network fails
        if o.result[0] == "embedded":
            prior = [x for x in loads if x.ds == o.ds and not x.crashed and x.result is not None and x.ret < o.inv
                     and x.result[0] == "v" and x.contacted and not x.faults]
            if prior and not power and not any(not isnet(f) for f in o.faults):
                last = max(prior, key=lambda x: x.ret)
                dirty = [x for x in hist if x is not last and x is not o and x.ret > last.inv and x.inv < o.ret
                         and (x.kind == "clear" or (x.ds == o.ds and x.crashed))]
                if not dirty:
                    out.probes["cached_fallback_checked"] += 1
                    out.violate("cache_ignored_when_offline", "load_%s(force=%s) returned embedded data although version %d was cached; faults %s"
                                % (o.ds, o.force, last.result[1], o.faults))
    # unforced loads are served from the cache, without touching the network
    for o in loads:
        if o.crashed or o.force or o.result is None or o.faults:
            continue
        prior = [x for x in loads if x.ds == o.ds and not x.crashed and x.result is not None and x.ret < o.inv
                 and x.result[0] == "v" and x.contacted and not x.faults]
        if not prior or power:
            continue
        last = max(prior, key=lambda x: x.ret)
        dirty = [x for x in hist if x is not last and x is not o and x.ret > last.inv and x.inv < o.ret
                 and (x.kind == "clear" or x.crashed)]
        if not dirty:
            out.probes["cache_hit_checked"] += 1
            if o.contacted:
                out.violate("cache_bypassed", "load_%s() contacted the server although a cached copy existed" % o.ds)
    for ds, force, r, contacted, dt in final:
        if r[0] in ("exc", "embedded"):
            out.violate("no_recovery", "after all faults stopped, load_%s(force=%s) gave %s" % (ds, force, r))
        if force and (r[0] != "v" or r[1] != maxver[ds]) and r[0] not in ("exc", "embedded"):
            out.violate("no_recovery", "after all faults stopped, forced load_%s returned %s, server holds %d" % (ds, r, maxver[ds]))
    for a, b in zip(final, final[1:]):
        if a[0] == b[0] and a[1] and not b[1]:
            if b[2] != a[2] or b[3]:
                out.violate("no_recovery", "after all faults stopped, load_%s() was not served from the cache just written (%s, contacted=%s)"
                            % (b[0], b[2], b[3]))
    if len(final) == 0 and loads:
        out.violate("no_recovery", "loads hang after all faults stopped")


# ------------------------------------------------------------------ generation
DISK = [("open_w", ["ENOSPC", "EACCES", "EROFS", "EIO", "EMFILE", "EDQUOT"]), ("open_r", ["EACCES", "EIO", "EMFILE"]),
        ("write", ["ENOSPC", "EIO", "SHORT", "TORN_ENOSPC", "SHORT", "TORN_ENOSPC"]), ("read", ["EIO", "SHORT"]),
        ("fsync", ["EIO", "ENOSPC"]), ("mkdir", ["ENOSPC", "EACCES", "EROFS"]), ("rename", ["EACCES", "EIO", "ENOSPC"]),
        ("unlink", ["EACCES", "EIO"]), ("stat", ["EACCES"])]
NET = [("conn", ["EIO_DNS", "REFUSED", "TIMEOUT", "SSL"]),
       ("status", ["S404", "S500", "S503", "S429", "S403", "EMPTY_REPLY", "GARBLED", "STALL", "BADUTF8", "TRUNC", "CHUNKED"]),
       ("recv", ["RESET", "STALL", "EARLY_EOF"])]
CRASH_AT = ["open_w", "write", "write", "write", "fsync", "rename", "unlink", "mkdir", "conn", "recv", "read"]


def gen(rng, want):
    nproc = rng.choice([1, 1, 1, 2, 2])
    dss = rng.sample(DATASETS, rng.choice([1, 1, 2, 4]))
    procs = []
    for _ in range(nproc):
        threads = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            ops = []
            for _ in range(rng.randint(1, 5)):
                x = rng.random()
                if x < 0.10:
                    ops.append(["clear"])
                else:
                    ops.append([rng.choice(["load", "load", "load_dataset"]), rng.choice(dss), int(rng.random() < 0.4)])
            threads.append(ops)
        procs.append(threads)
    nops = sum(len(o) for t in procs for o in t)
    switches = []
    if nproc > 1 or len(procs[0]) > 1:
        p = rng.choice([0.02, 0.08, 0.25])
        switches = [[s, rng.randint(0, 3)] for s in range(1, 40 * nops) if rng.random() < p]
    mode = rng.choice(["none", "disk", "net", "both"])
    faults = []
    if mode in ("disk", "both"):
        for cls, kinds in rng.sample(DISK, rng.randint(1, 3)):
            for _ in range(rng.randint(1, 2)):
                faults.append([cls, rng.randint(1, 3 + nops // 2), rng.choice(kinds)])
    if mode in ("net", "both"):
        for cls, kinds in rng.sample(NET, rng.randint(1, 2)):
            for _ in range(rng.randint(1, 3)):
                faults.append([cls, rng.randint(1, 2 + nops), rng.choice(kinds)])
    crashes = []
    if rng.random() < (0.6 if want == "P01" else 0.25):
        for _ in range(rng.choice([1, 1, 2])):
            crashes.append([rng.choice(CRASH_AT), rng.randint(1, 4), rng.choice(["kill", "kill", "power"]), rng.randint(0, 100000)])
    publishes = []
    for _ in range(rng.randint(0, 4)):
        publishes.append([rng.randint(1, 2 * nops), rng.choice(dss)])
    if rng.random() < 0.35:
        a = rng.randint(1, 2 * nops)
        publishes.append([a, "*down"])
        if rng.random() < 0.5:
            publishes.append([a + rng.randint(1, 4), "*up"])
    publishes.sort()
    return {"procs": procs, "switches": switches, "tail": [rng.randint(0, 3) for _ in range(6)],
            "faults": faults, "crashes": crashes, "publishes": publishes,
            "locale": rng.choice(["utf-8", "utf-8", "ascii", "cp1252"])}


def shrink(scn):
    import copy
    for key in ("switches", "crashes", "faults", "publishes"):
        for smaller in core.shrink_list(scn[key]):
            c = copy.deepcopy(scn)
            c[key] = smaller
            yield c
    for pi in range(len(scn["procs"])):
        if len(scn["procs"]) > 1:
            c = copy.deepcopy(scn)
            del c["procs"][pi]
            yield c
        for ti in range(len(scn["procs"][pi])):
            if len(scn["procs"][pi]) > 1:
                c = copy.deepcopy(scn)
                del c["procs"][pi][ti]
                yield c
            for smaller in core.shrink_list(scn["procs"][pi][ti]):
                if smaller:
                    c = copy.deepcopy(scn)
                    c["procs"][pi][ti] = smaller
                    yield c
    if scn["locale"] != "utf-8":
        c = copy.deepcopy(scn)
        c["locale"] = "utf-8"
        yield c
    for k in range(len(scn["faults"])):
        if scn["faults"][k][1] > 1:
            c = copy.deepcopy(scn)
            c["faults"][k][1] = 1
            yield c
