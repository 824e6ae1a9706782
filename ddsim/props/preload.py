"""Import heavy modules once, before any run is forked."""
import sys

from .. import core


def numeric(seamed=True):
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import scipy.linalg  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.stats  # noqa: F401
    import http.client, urllib.request, tempfile, ssl, socket  # noqa: F401,E401
    if seamed:
        from .. import seam
        seam.install()
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)


def library():
    numeric()
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import diff_diff
    if not diff_diff.__file__.startswith(core.REPO + "/"):
        raise core.HarnessError("diff_diff imported from " + diff_diff.__file__)
    return diff_diff
