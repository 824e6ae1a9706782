"""A simulated `diff_diff._rust_backend`: the compiled extension as the other party.

Independent NumPy implementation of the extension's documented functions, with the
strict argument types of the real one.  Calls are counted; a plan makes chosen calls
fail as the real extension fails (numerical errors, NaN variance, panics) or answer
with scripted tuning results, replicates and draws.
"""
import collections
import hashlib
import os
import sys
import types

import numpy as np

NAMES = ["generate_bootstrap_weights_batch", "compute_synthetic_weights", "project_simplex", "solve_ols", "compute_robust_vcov", "compute_unit_distance_matrix",
         "loocv_grid_search", "bootstrap_trop_variance", "loocv_grid_search_joint", "bootstrap_trop_variance_joint"]


class Panic(BaseException):
    """pyo3_runtime.PanicException derives from BaseException."""


class S:
    calls = []           # names in order
    args = []            # (name, interesting arguments)
    plan = None          # callable(name, k, k_name) -> kind or None
    fired = []
    by = collections.Counter()
    lam = None           # scripted answer of the TROP searches: indices into the grids
    reps = None          # scripted TROP replicates


def reset():
    S.calls, S.args, S.plan, S.fired, S.by, S.lam, S.reps = [], [], None, [], collections.Counter(), None, None


KINDS = {"solve_ols": ["unstable", "unstable", "nanvcov", "svd", "panic", "memory", "interrupt"],
         "compute_robust_vcov": ["unstable", "unstable", "inversion", "clusters", "panic", "interrupt"],
         "compute_synthetic_weights": ["value", "memory", "panic"], "generate_bootstrap_weights_batch": ["value", "memory", "panic"],
         "compute_unit_distance_matrix": ["memory", "panic"], "loocv_grid_search": ["value", "runtime", "memory", "inf", "none", "some", "panic", "interrupt"],
         "loocv_grid_search_joint": ["value", "runtime", "memory", "inf", "none", "some", "panic", "interrupt"],
         "bootstrap_trop_variance": ["value", "runtime", "memory", "few", "empty", "panic", "interrupt"],
         "bootstrap_trop_variance_joint": ["value", "runtime", "memory", "few", "empty", "panic", "interrupt"], "project_simplex": ["value"]}
TROP = [n for n in NAMES if "trop" in n or "loocv" in n]


def enter(name, **info):
    S.calls.append(name)
    S.by[name] += 1
    S.args.append((name, info))
    kind = S.plan(name, len(S.calls), S.by[name]) if S.plan else None
    if kind is None:
        return None
    S.fired.append((kind, name))
    if kind == "unstable":
        raise ValueError("Matrix inversion is numerically unstable (condition number too large)")
    if kind == "inversion":
        raise ValueError("Matrix inversion failed")
    if kind == "svd":
        raise ValueError("SVD computation failed")
    if kind == "clusters":
        raise ValueError("Need at least 2 clusters for cluster-robust SEs, got 1")
    if kind == "value":
        raise ValueError("invalid value")
    if kind == "runtime":
        raise RuntimeError("thread pool failed")
    if kind == "memory":
        raise MemoryError("allocation failed")
    if kind == "panic":
        raise Panic("called `Option::unwrap()` on a `None` value")
    if kind == "interrupt":
        raise KeyboardInterrupt("during backend call")
    return kind


def arr(x, nd, dt, name):
    if not isinstance(x, np.ndarray) or x.ndim != nd or x.dtype != dt:
        raise TypeError("argument '%s': expected %d-d %s array, got %r" % (name, nd, np.dtype(dt), getattr(x, "dtype", type(x))))
    return x


def sandwich(X, u, cl):
    n, k = X.shape
    try:
        bread = np.linalg.inv(X.T @ X)
    except np.linalg.LinAlgError:
        raise ValueError("Matrix inversion failed") from None
    if not np.isfinite(bread).all():
        raise ValueError("Matrix inversion failed")
    if cl is None:
        s = X * u[:, None]
        return bread @ (s.T @ s) @ bread * (n / (n - k) if n > k else float("inf"))
    ids = sorted(set(cl.tolist()))
    if len(ids) < 2:
        raise ValueError("Need at least 2 clusters for cluster-robust SEs, got %d" % len(ids))
    s = np.array([(X[cl == g] * u[cl == g][:, None]).sum(axis=0) for g in ids])
    G = len(ids)
    return bread @ (s.T @ s) @ bread * (G / (G - 1)) * ((n - 1) / (n - k))


def solve_ols(x, y, cluster_ids=None, return_vcov=True):
    arr(x, 2, np.float64, "x"), arr(y, 1, np.float64, "y")
    if cluster_ids is not None:
        arr(cluster_ids, 1, np.int64, "cluster_ids")
    kind = enter("solve_ols", shape=x.shape)
    U, s, Vt = np.linalg.svd(x, full_matrices=False)
    keep = s > s.max(initial=0.0) * 1e-7
    b = Vt.T[:, keep] @ ((U.T[keep] @ y) / s[keep])
    u = y - x @ b
    v = None
    if return_vcov:
        if keep.sum() < x.shape[1] or kind == "nanvcov":
            v = np.full((x.shape[1],) * 2, np.nan)
        else:
            v = sandwich(x, u, cluster_ids)
    return b, u, v


def compute_robust_vcov(x, residuals, cluster_ids=None):
    arr(x, 2, np.float64, "x"), arr(residuals, 1, np.float64, "residuals")
    if cluster_ids is not None:
        arr(cluster_ids, 1, np.int64, "cluster_ids")
    enter("compute_robust_vcov", shape=x.shape)
    return sandwich(x, residuals, cluster_ids)


def _simplex(v):
    u = np.sort(v)[::-1]
    c = np.cumsum(u)
    rho = max(j for j in range(len(v)) if u[j] > (c[j] - 1) / (j + 1))
    return np.maximum(v - (c[rho] - 1) / (rho + 1), 0)


def project_simplex(v):
    arr(v, 1, np.float64, "v")
    enter("project_simplex")
    return _simplex(v)


def compute_synthetic_weights(y_control, y_treated, lambda_reg=0.0, max_iter=None, tol=None):
    arr(y_control, 2, np.float64, "y_control"), arr(y_treated, 1, np.float64, "y_treated")
    lambda_reg = float(lambda_reg)
    enter("compute_synthetic_weights")
    n = y_control.shape[1]
    H = y_control.T @ y_control + lambda_reg * np.eye(n)
    f = y_control.T @ y_treated + lambda_reg / n
    w = np.ones(n) / n
    step = 1.0 / (np.linalg.norm(H, 2) + 1e-10)
    for _ in range(max_iter if max_iter is not None else 1000):
        w2 = _simplex(w - step * (H @ w - f))
        done = np.linalg.norm(w2 - w) < (tol if tol is not None else 1e-8)
        w = w2
        if done:
            break
    return w


VALUES = {"rademacher": [-1.0, 1.0], "webb": [-1.5 ** .5, -1.0, -.5 ** .5, .5 ** .5, 1.0, 1.5 ** .5],
          "mammen": [-(5 ** .5 - 1) / 2, (5 ** .5 + 1) / 2]}


def weights(B, n, kind):
    """The draws this simulated backend makes: a function of the shape only, so that the reference run can be given the same ones."""
    seed = int.from_bytes(hashlib.sha256(("%d/%d/%s" % (B, n, kind)).encode()).digest()[:6], "big")
    p = [(5 ** .5 + 1) / (2 * 5 ** .5), 1 - (5 ** .5 + 1) / (2 * 5 ** .5)] if kind == "mammen" else None
    st = np.random.RandomState(seed % 2 ** 32)
    return st.choice(VALUES[kind], size=(B, n), p=p)


def generate_bootstrap_weights_batch(n_bootstrap, n_units, weight_type, seed):
    if int(seed) < 0 or int(n_bootstrap) < 0 or int(n_units) < 0:
        raise OverflowError("can't convert negative int to unsigned")
    if weight_type not in VALUES:
        raise ValueError("Unknown weight type: " + str(weight_type))
    enter("generate_bootstrap_weights_batch", B=int(n_bootstrap), n=int(n_units), wt=weight_type, seed=int(seed))
    return weights(int(n_bootstrap), int(n_units), weight_type)


def compute_unit_distance_matrix(y, d):
    arr(y, 2, np.float64, "y"), arr(d, 2, np.float64, "d")
    enter("compute_unit_distance_matrix")
    n = y.shape[1]
    out = np.full((n, n), np.inf)
    for i in range(n):
        for j in range(n):
            ok = (d[:, i] == 0) & (d[:, j] == 0) & ~np.isnan(y[:, i]) & ~np.isnan(y[:, j])
            if ok.any():
                out[i, j] = np.sqrt(np.mean((y[ok, i] - y[ok, j]) ** 2))
    np.fill_diagonal(out, 0.0)
    return out


def _search(name, y, d, mask, gt, gu, gn, mls, mi, tol, seed):
    arr(y, 2, np.float64, "y"), arr(d, 2, np.float64, "d"), arr(mask, 2, np.uint8, "control_mask")
    for g, nm in ((gt, "lambda_time_grid"), (gu, "lambda_unit_grid"), (gn, "lambda_nn_grid")):
        arr(g, 1, np.float64, nm)
    int(mls), int(mi), float(tol)
    if int(seed) < 0:
        raise OverflowError("can't convert negative int to unsigned")
    kind = enter(name, seed=int(seed), mls=int(mls), mi=int(mi), tol=float(tol), grids=(gt.tolist(), gu.tolist(), gn.tolist()),
                 mask=bool(((mask != 0) == (d == 0)).all()))
    a, b, c = S.lam or (0, 0, 0)
    lam = (float(gt[a % len(gt)]), float(gu[b % len(gu)]), float(gn[c % len(gn)]))
    if kind == "inf":
        return lam + (float("inf"), 20, 20, None)
    if kind == "none":
        return lam + (float("inf"), 0, 20, (1, 2))
    if kind == "some":
        return lam + (7.25, 15, 20, (0, 1))
    return lam + (7.25, 20, 20, None)


def loocv_grid_search(y, d, control_mask, time_dist_matrix, lambda_time_grid, lambda_unit_grid, lambda_nn_grid, max_loocv_samples, max_iter, tol, seed):
    arr(time_dist_matrix, 2, np.int64, "time_dist_matrix")
    return _search("loocv_grid_search", y, d, control_mask, lambda_time_grid, lambda_unit_grid, lambda_nn_grid, max_loocv_samples, max_iter, tol, seed)


def loocv_grid_search_joint(y, d, control_mask, lambda_time_grid, lambda_unit_grid, lambda_nn_grid, max_loocv_samples, max_iter, tol, seed):
    return _search("loocv_grid_search_joint", y, d, control_mask, lambda_time_grid, lambda_unit_grid, lambda_nn_grid, max_loocv_samples, max_iter, tol, seed)


def _boot(name, y, d, lt, lu, ln, B, mi, tol, seed):
    arr(y, 2, np.float64, "y"), arr(d, 2, np.float64, "d")
    B = int(B)
    kind = enter(name, lam=(float(lt), float(lu), float(ln)), B=B, mi=int(mi), tol=float(tol), seed=int(seed))
    v = np.array(S.reps[:B] if S.reps else [], dtype=float)
    if kind == "few":
        v = v[:7]
    elif kind == "empty":
        v = v[:0]
    return v, float(np.std(v, ddof=1)) if len(v) > 1 else 0.0


def bootstrap_trop_variance(y, d, control_mask, time_dist_matrix, lambda_time, lambda_unit, lambda_nn, n_bootstrap, max_iter, tol, seed):
    arr(control_mask, 2, np.uint8, "control_mask"), arr(time_dist_matrix, 2, np.int64, "time_dist_matrix")
    return _boot("bootstrap_trop_variance", y, d, lambda_time, lambda_unit, lambda_nn, n_bootstrap, max_iter, tol, seed)


def bootstrap_trop_variance_joint(y, d, lambda_time, lambda_unit, lambda_nn, n_bootstrap, max_iter, tol, seed):
    return _boot("bootstrap_trop_variance_joint", y, d, lambda_time, lambda_unit, lambda_nn, n_bootstrap, max_iter, tol, seed)


def module(missing=()):
    m = types.ModuleType("diff_diff._rust_backend")
    for n in NAMES:
        if n not in missing:
            setattr(m, n, globals()[n])
    return m


class Blocked:
    """Finder under which the extension does not exist (or cannot be loaded)."""

    def __init__(self, error=None):
        self.error = error

    def find_spec(self, name, path=None, target=None):
        if name == "diff_diff._rust_backend":
            raise self.error or ModuleNotFoundError("No module named 'diff_diff._rust_backend'", name=name)
        return None


def purge():
    """Take the library out of sys.modules; -> what was there."""
    old = {k: v for k, v in sys.modules.items() if k == "diff_diff" or k.startswith("diff_diff.")}
    for k in old:
        del sys.modules[k]
    return old


def put(mods):
    purge()
    sys.modules.update(mods)


def fresh(env, ext):
    """Import the library anew: env = value of DIFF_DIFF_BACKEND or None, ext = module, or an exception, or None for absent.  -> modules"""
    old = purge()
    keep = os.environ.get("DIFF_DIFF_BACKEND")
    finder = None
    try:
        if env is None:
            os.environ.pop("DIFF_DIFF_BACKEND", None)
        else:
            os.environ["DIFF_DIFF_BACKEND"] = env
        if isinstance(ext, types.ModuleType):
            sys.modules["diff_diff._rust_backend"] = ext
        else:
            finder = Blocked(ext)
            sys.meta_path.insert(0, finder)
        import diff_diff  # noqa: F401
        return purge()
    finally:
        if finder is not None:
            sys.meta_path.remove(finder)
        os.environ.pop("DIFF_DIFF_BACKEND", None)
        if keep is not None:
            os.environ["DIFF_DIFF_BACKEND"] = keep
        put(old)
