"""Seeded synthetic panels (independent of the library's own generators)."""
import numpy as np
import pandas as pd


def make(spec):
    """spec: {"kind": did|panel|stag|ddd|factor, "seed": int, ...sizes}"""
    k = spec["kind"]
    rng = np.random.default_rng(spec["seed"])
    if k in ("did", "panel"):
        df = _panel(rng, spec)
    elif k == "stag":
        df = _stag(rng, spec)
    elif k == "ddd":
        df = _ddd(rng, spec)
    elif k == "factor":
        df = _factor(rng, spec)
    else:
        raise ValueError(k)
    return _decorate(df, spec, rng)


def _labels(spec, n):
    if spec.get("labels") == "str":
        return ["u%03d" % i for i in range(n)]
    if spec.get("labels") == "offset":
        return [1000 + 7 * i for i in range(n)]
    return list(range(n))


def _panel(rng, s):
    n, T, t0 = s["n"], s["T"], s["t0"]
    ntr = s.get("ntr", n // 2)
    lab = _labels(s, n)
    fe = rng.normal(0, 2, n)
    cl = rng.integers(0, max(3, n // 3), n)
    x2u = rng.normal(0, 1, n)
    rows = []
    for i in range(n):
        for t in range(T):
            tr, po = int(i < ntr), int(t >= t0)
            x1 = rng.normal(0, 1)
            y = 3 + fe[i] + 0.4 * t + s.get("eff", 2.0) * tr * po + 0.7 * x1 + 0.3 * x2u[i] * t + rng.normal(0, s.get("sd", 1.0))
            rows.append((lab[i], t + s.get("tbase", 0), tr, po, tr * po, y, x1, x2u[i], "c%02d" % cl[i], i % 3))
    return pd.DataFrame(rows, columns=["unit", "time", "treated", "post", "d", "y", "x1", "x2", "cl", "grp"])


def _stag(rng, s):
    n, T = s["n"], s["T"]
    base = s.get("tbase", 0)
    cohorts = [base + c for c in s["cohorts"]]
    nev = s.get("never", 0.35)
    lab = _labels(s, n)
    fe = rng.normal(0, 2, n)
    xu = rng.normal(0, 1, n)
    cl = rng.integers(0, max(4, n // 3), n)
    n0 = max(3, int(n * nev))
    rows = []
    for i in range(n):
        g = 0 if i < n0 else cohorts[i % len(cohorts)]
        for t in range(base, base + T):
            x1 = rng.normal(0, 1)
            on = g > 0 and t >= g
            y = 1 + fe[i] + 0.3 * (t - base) + (s.get("eff", 2.0) + 0.2 * (t - g)) * on + 0.5 * xu[i] * (t - base) \
                + 0.4 * x1 + rng.normal(0, s.get("sd", 1.0))
            rows.append((lab[i], t, g, int(on), y, x1, xu[i], "c%02d" % cl[i]))
    return pd.DataFrame(rows, columns=["unit", "time", "first_treat", "d", "y", "x1", "x2", "cl"])


def _ddd(rng, s):
    n = s["n"]
    rows = []
    uid = 0
    for g in (0, 1):
        for p in (0, 1):
            for _ in range(n + int(rng.integers(0, 4))):
                u = rng.normal(0, 1)
                x2 = rng.normal(0.3 * g, 1)
                for t in (0, 1):
                    x1 = rng.normal(0.2 * p, 1)
                    y = 5 + g + 0.5 * p + 0.7 * t + g * p + g * t * 0.4 + p * t * 0.2 + s.get("eff", 2.0) * g * p * t \
                        + 0.5 * x1 + 0.3 * x2 + u + rng.normal(0, s.get("sd", 1.0))
                    rows.append((uid, g, p, t, y, x1, x2, "c%02d" % (uid % 9)))
                uid += 1
    return pd.DataFrame(rows, columns=["unit", "group", "partition", "time", "y", "x1", "x2", "cl"])


def _factor(rng, s):
    n, T, t0 = s["n"], s["T"], s["t0"]
    ntr = s.get("ntr", 3)
    r = s.get("rank", 1)
    lab = _labels(s, n)
    F = rng.normal(0, 1, (T, r))
    L = rng.normal(0, 1, (n, r))
    L[:ntr] += 0.5
    fe = rng.normal(0, 1, n)
    rows = []
    for i in range(n):
        for t in range(T):
            tr = int(i < ntr)
            d = int(tr and t >= t0)
            y = fe[i] + 0.2 * t + float(L[i] @ F[t]) + s.get("eff", 2.0) * d + rng.normal(0, s.get("sd", 0.5))
            rows.append((lab[i], t + s.get("tbase", 0), tr, int(t >= t0), d, y, rng.normal(0, 1)))
    return pd.DataFrame(rows, columns=["unit", "time", "treated", "post", "d", "y", "x1"])


def _decorate(df, s, rng):
    """Shuffles, odd indexes and awkward dtypes: still the same panel."""
    if s.get("shuffle"):
        df = df.iloc[rng.permutation(len(df))]
        if s["shuffle"] == 1:
            df = df.reset_index(drop=True)
    if s.get("index") == "offset":
        df.index = np.arange(len(df)) + 500
    elif s.get("index") == "str":
        df.index = ["r%d" % i for i in range(len(df))]
    if s.get("float_ft") and "first_treat" in df.columns:
        df = df.copy()
        df["first_treat"] = df["first_treat"].astype(float)
        if s["float_ft"] == "inf":
            df.loc[df["first_treat"] == 0, "first_treat"] = np.inf
    if s.get("dtypes"):
        df = _retype(df.copy(), s["dtypes"])
    if s.get("bad"):
        df = _spoil(df.copy(), s, rng)
    return df


DTYPES = ["bool", "f32", "cat", "i8", "Int64", "dupindex", "multi", "readonly"]


def _retype(df, how):
    """The same panel in other legal dtypes and indexes."""
    flags = [c for c in ("treated", "post", "d", "group", "partition") if c in df]
    if how == "bool":
        df[flags] = df[flags].astype(bool)
    elif how == "f32":
        df["y"] = df["y"].astype(np.float32)
    elif how == "cat":
        for c in ("unit", "cl", "grp"):
            if c in df:
                df[c] = df[c].astype("category")
    elif how == "i8":
        df[flags] = df[flags].astype(np.int8)
    elif how == "Int64":
        df[flags] = df[flags].astype("Int64")
    elif how == "dupindex":
        df.index = [7] * len(df)
    elif how == "multi":
        df.index = pd.MultiIndex.from_arrays([df["unit"].to_numpy(), df["time"].to_numpy()], names=["i", "j"])
    elif how == "readonly":
        df = pd.DataFrame({c: df[c].to_numpy() for c in df}, index=df.index)
        for c in df:
            v = df[c].to_numpy()
            try:
                v.flags.writeable = False
            except ValueError:
                pass
    return df


BAD = ["nan_y", "nan_y", "const_y", "drop_rows", "drop_rows", "nonbinary", "missing_col", "huge", "collinear", "dup_rows", "all_treated", "inf_y",
       "obj_y", "one_cluster", "int_y"]


def _spoil(df, s, rng):
    """Awkward or invalid panels: the library may refuse them, but must stay well behaved."""
    b = s["bad"]
    n = len(df)
    pos = sorted(rng.choice(n, size=max(1, n // 12), replace=False).tolist())
    yi = df.columns.get_loc("y")
    if b == "nan_y":
        df.iloc[pos, yi] = np.nan
    elif b == "inf_y":
        df.iloc[pos[:1], yi] = np.inf
    elif b == "const_y":
        df["y"] = 1.5
    elif b == "int_y":
        df["y"] = df["y"].round().astype(int)
    elif b == "obj_y":
        df["y"] = df["y"].astype(str)
    elif b == "drop_rows":
        df = df.drop(index=df.index[pos])
    elif b == "dup_rows":
        df = pd.concat([df, df.iloc[pos]])
    elif b == "nonbinary":
        for c in ("treated", "group", "d"):
            if c in df:
                df[c] = df[c] * 2
    elif b == "all_treated":
        for c in ("treated", "group", "d"):
            if c in df:
                df[c] = 1
        if "first_treat" in df:
            df.loc[df["first_treat"] == 0, "first_treat"] = df["time"].max()
    elif b == "missing_col":
        df = df.drop(columns=[[c for c in ("x1", "unit", "treated", "time", "cl") if c in df][int(rng.integers(0, 4)) % 4]])
    elif b == "huge":
        df["y"] = df["y"] * 1e150
    elif b == "collinear":
        if "x1" in df and "x2" in df:
            df["x2"] = df["x1"] * 3.0
        elif "x1" in df:
            df["x1"] = 1.0
    elif b == "one_cluster" and "cl" in df:
        df["cl"] = "c00"
    return df


def gen(rng, kind, tier="quick"):
    """Random data spec.  rng: random.Random."""
    s = {"kind": kind, "seed": rng.randint(0, 10 ** 6), "sd": rng.choice([0.3, 1.0, 2.0]), "eff": rng.choice([0.0, 1.0, 3.0])}
    s["labels"] = rng.choice(["int", "int", "str", "offset"])
    if rng.random() < 0.3:
        s["shuffle"] = rng.choice([1, 2])
    if rng.random() < 0.25:
        s["index"] = rng.choice(["offset", "str"])
    if kind == "did":
        T = rng.choice([2, 2, 4])
        s.update(n=rng.randint(12, 36), T=T, t0=T // 2)
    elif kind == "panel":
        T = rng.randint(4, 7)
        s.update(n=rng.randint(12, 26), T=T, t0=rng.randint(2, T - 1), tbase=rng.choice([0, 2000]))
    elif kind == "stag":
        T = rng.randint(5, 7)
        s.update(n=rng.randint(18, 36), T=T, cohorts=sorted(rng.sample(range(2, T), rng.choice([1, 2, 2, 3]))),
                 tbase=rng.choice([1, 2000]), never=rng.choice([0.3, 0.5]))
    elif kind == "ddd":
        s.update(n=rng.randint(8, 20))
        s.pop("labels")
    elif kind == "factor":
        T = rng.randint(6, 9)
        s.update(n=rng.randint(9, 15), T=T, t0=T - rng.choice([2, 3]), ntr=rng.randint(2, 3), rank=rng.choice([1, 2]),
                 tbase=rng.choice([0, 1990]))
    return s
