from .. import core, dsworld
from . import preload


class PROP(core.Property):
    ID = "P01"
    BUDGET = {"quick": (2400, 110), "thorough": (40000, 780)}
    RULE = ("A case is one simulated history: 1-2 processes x 1-2 threads issuing load/force/clear calls against a "
            "simulated disk and HTTP server under a seeded schedule, fault plan, crash plan and server publications. "
            "Non-trivial: at least one fault or crash actually fired. Distinct: different (fault kinds, per-call outcome "
            "and faults, context-switch sequence).")
    REAL = ["diff_diff.datasets (loaders, cache, fallback)", "urllib.request", "http.client", "pathlib", "tempfile",
            "io buffering and text layers", "pandas.read_csv"]
    STUB = ["kernel file system (in-memory, volatile and durable state)", "TCP/TLS socket and HTTP server", "clock",
            "OS scheduler (seeded, switches at every system call)"]
    ASSUMPTIONS = ["power loss keeps a prefix of un-fsynced metadata operations and of un-fsynced appended bytes",
                   "a truncated HTTP body is detectable (Content-Length or chunked framing present)",
                   "a process restart re-executes diff_diff/datasets.py from source"]

    def __init__(self):
        super().__init__()
        preload.numeric()
        self.embedded = dsworld.embedded_digests()

    def gen(self, rng, tier, i):
        return dsworld.gen(rng, self.ID)

    def execute(self, scn):
        return dsworld.execute(scn, self.embedded, self.ID)

    def shrink(self, scn):
        return dsworld.shrink(scn)
