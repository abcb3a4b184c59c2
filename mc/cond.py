"""Reference model of conditions: {feature name: (index, bmin, bmax)}, and small data sets."""
import math

import numpy as np
import pandas as pd

INF = math.inf
NAN = math.nan


def met(cond, point):
    """cond: list of (index, bmin, bmax); point: sequence of feature values."""
    return int(all(math.isfinite(point[i]) and lo <= point[i] <= hi for i, lo, hi in cond))


def bits(cond, rows):
    return [met(cond, r) for r in rows]


def num(x):
    """JSON cannot hold infinities and NaN portably: they are written as strings in cases."""
    return float(x) if isinstance(x, str) else x


def build(features, sort=True, names=True):
    """features: list of (index, bmin, bmax)."""
    from ruleskit import HyperrectangleCondition

    kw = {}
    if names:
        kw["features_names"] = [names[i] if isinstance(names, (list, tuple)) else f"X_{i}" for i, _, _ in features]
    return HyperrectangleCondition(
        features_indexes=[i for i, _, _ in features],
        bmins=[lo for _, lo, _ in features],
        bmaxs=[hi for _, _, hi in features],
        sort=sort,
        **kw,
    )


def indexes(n):
    """Row indexes of data frames and series: default, shifted, reversed, duplicated, strings, dates, two levels."""
    return {
        "range": None,
        "shifted": list(range(10, 10 + n)),
        "reversed": list(range(n))[::-1],
        "same": [0] * n,
        "strings": [f"r{i}" for i in range(n)],
        "floats": [i / 2 - 1 for i in range(n)],
        "dates": pd.date_range("2020-01-01", periods=n)[::-1],
        "multi": pd.MultiIndex.from_tuples([(i // 2, f"k{i}") for i in range(n)]),
    }


def containers(rows, names, kinds=None):
    """The same features as arrays and data frames: yields (name, xs)."""
    d = len(names)
    arr = np.array(rows, dtype=float).reshape(len(rows), d)
    n = len(rows)
    out = {"array": lambda: arr.copy(), "fortran": lambda: np.asfortranarray(arr)}

    def strided():
        big = np.full((2 * n, 2 * d), 77.0)
        big[::2, ::2] = arr
        return big[::2, ::2]

    out["strided"] = strided
    out["frame"] = lambda: pd.DataFrame(arr.copy(), columns=names)

    def shuffled():
        df = pd.DataFrame(arr.copy(), columns=names)
        df["extra"] = 0.25
        df["0"] = 0.5
        return df[["extra"] + names[::-1] + ["0"]]

    out["shuffled"] = shuffled

    def readonly():
        a = arr.copy()
        a.flags.writeable = False
        return a

    out["readonly"] = readonly
    out["backwards"] = lambda: np.ascontiguousarray(arr[::-1, ::-1])[::-1, ::-1]
    for k, ix in indexes(n).items():
        if k != "range":
            out[f"frame_{k}"] = lambda ix=ix: pd.DataFrame(arr.copy(), columns=names, index=ix)
    if np.all(np.isfinite(arr)) and np.all(arr == arr.astype(int)):
        out["int"] = lambda: arr.astype("int64")
        out["frame_int"] = lambda: pd.DataFrame(arr.astype("int64"), columns=names)
        out["int8"] = lambda: arr.astype("int8")
        if np.all(arr >= 0):
            out["uint8"] = lambda: arr.astype("uint8")
        if np.all((arr == 0) | (arr == 1)):
            out["bool"] = lambda: arr.astype(bool)

        def mixed():  # columns of several types, one of them not a number
            df = pd.DataFrame(arr.copy(), columns=names)
            df[names[0]] = df[names[0]].astype("int64")
            df[names[-1]] = df[names[-1]].astype("float32")
            df["extra"] = "text"
            return df

        out["mixed"] = mixed
    if np.all((arr == arr.astype("float32")) | np.isnan(arr)):
        out["float32"] = lambda: arr.astype("float32")
    for k, f in out.items():
        if kinds is None or k in kinds:
            yield k, f()


def frozen(xs):
    """A comparable snapshot of features or targets."""
    if isinstance(xs, pd.DataFrame):
        return "df", xs.values.tobytes() if xs.values.dtype != object else repr(xs.values.tolist()), list(map(str, xs.columns)), repr(list(xs.index)), str(xs.dtypes.tolist())
    if isinstance(xs, pd.Series):
        return "sr", repr(xs.values.tolist()), repr(list(xs.index)), str(xs.dtype), str(xs.name)
    return "np", np.ascontiguousarray(xs).tobytes() if xs.dtype != object else repr(xs.tolist()), xs.shape, str(xs.dtype)
