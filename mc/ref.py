"""Reference model of rules and rule sets: plain Python on lists, written from the documentation.

A missing number is NaN. Targets are lists of numbers (or strings); activations are lists of 0/1.
"""
import math
from fractions import Fraction

import numpy as np
import pandas as pd

NAN = math.nan


def na(x):
    return x is None or (isinstance(x, float) and math.isnan(x))


def known(ys):
    return [y for y in ys if not na(y)]


def mean(v):
    return float(sum(map(Fraction, v)) / len(v)) if v else NAN


def std(v, ddof):
    if not v:
        return NAN
    if len(v) == 1:
        return 0.0
    m = sum(map(Fraction, v)) / len(v)
    return math.sqrt(sum((Fraction(x) - m) ** 2 for x in v) / (len(v) - ddof))


def active(bits, y):
    return [v for b, v in zip(bits, y) if b]


def div(a, b):
    """Division of floats with the conventions of numpy."""
    if na(a) or na(b):
        return NAN
    if b == 0:
        return NAN if a == 0 else math.inf * math.copysign(1, a)
    return a / b


def fit_regression(bits, y, horizon=1):
    act = known(active(bits, y))
    pred = mean(act)
    nones = sum(bits)
    ky = known(y)
    z = NAN
    if nones and act:
        z = div(abs(pred - mean(ky)), math.sqrt(horizon / nones) * std(ky, 0))
    return {
        "coverage": nones / len(bits),
        "prediction": pred,
        "std": std(act, 1),
        "sign": None if na(pred) else ("-" if pred < 0 else "+"),
        "zscore": z,
        "train_set_size": len(y),
    }


def fit_classification(bits, y):
    act = active(bits, y)
    pred = NAN
    if act:
        count = {c: act.count(c) for c in set(act)}
        pred = min(c for c in count if count[c] == max(count.values()))
    return {"coverage": sum(bits) / len(bits), "prediction": pred, "train_set_size": len(y)}


def vector(bits, pred):
    return [pred if b else NAN for b in bits]


def predict_regression(rules, weights=None):
    """rules: list of (bits, prediction); weights: list or None. None: no rule is usable."""
    if weights is None:
        weights = [1] * len(rules)
    n = len(rules[0][0])
    out = []
    for i in range(n):
        a = [(Fraction(p), Fraction(w)) for (b, p), w in zip(rules, weights) if b[i] and not na(p) and not na(w) and w != 0]
        out.append(float(sum(p * w for p, w in a) / sum(w for _, w in a)) if a else NAN)
    return out


def predict_classification(rules, weights=None):
    if weights is None:
        weights = [1] * len(rules)
    n = len(rules[0][0])
    out = []
    for i in range(n):
        votes = {}
        for (b, p), w in zip(rules, weights):
            if b[i] and not na(p) and not na(w) and w != 0:
                votes[p] = votes.get(p, 0) + Fraction(w)
        best = [c for c in votes if votes[c] == max(votes.values())]
        out.append(best[0] if len(best) == 1 else NAN)
    return out


def criterion_regression(preds, y, method="mse_norm"):
    e = [abs(Fraction(p) - Fraction(t)) for p, t in zip(preds, y) if not na(p) and not na(t)]
    if not e:
        return NAN
    ky = [Fraction(t) for t in known(y)]
    m = sum(ky) / len(ky)
    mse = float(sum(x * x for x in e) / len(e))
    mae = float(sum(e) / len(e))
    if method == "mse":
        return mse
    if method == "mae":
        return mae
    if method == "mse_norm":
        return div(mse, float(sum((t - m) ** 2 for t in ky) / len(ky)))
    if method == "mae_norm":
        return div(mae, float(sum(abs(t - m) for t in ky) / len(ky)))
    if method == "aae":
        s = sorted(ky)
        med = s[len(s) // 2] if len(s) % 2 else (s[len(s) // 2 - 1] + s[len(s) // 2]) / 2
        return div(mae, float(sum(abs(t - med) for t in ky) / len(ky)))
    raise KeyError(method)


def criterion_classification(preds, y):
    a = [(p, t) for p, t in zip(preds, y) if not na(p)]
    return sum(p == t for p, t in a) / len(a) if a else NAN


METHODS = ("mse", "mse_norm", "mae", "mae_norm", "aae")


# -- building real objects

def bit_rule(cls, i, value=1, name=None):
    """A rule activated where feature i is `value`: any set of activations is obtained from the columns of 0/1 features."""
    from ruleskit import HyperrectangleCondition

    return cls(HyperrectangleCondition(features_indexes=[i], bmins=[value], bmaxs=[value], features_names=[name or f"X_{i}"]))


def columns(*bits):
    """Features whose columns are the given activations."""
    return np.array(bits, dtype=float).T.reshape(len(bits[0]), len(bits))


TARGETS = ("array", "int", "float32", "object", "series", "series_shifted", "series_reversed", "series_same", "series_strings", "series_floats",
           "series_dates", "series_multi", "series_int", "int8", "uint8", "bool", "series_bool")


def target(y, kind, string=False):
    """The same targets in another container; None if it cannot hold them."""
    from mc.cond import indexes

    y = list(y)
    strings = any(isinstance(v, str) for v in y)
    if kind in ("bool", "series_bool"):
        if strings or any(v not in (0, 1) for v in y):
            return None
        a = np.array(y).astype(bool)
        return a if kind == "bool" else pd.Series(a)
    if kind in ("int8", "uint8"):
        if strings or any(na(v) or v != int(v) or not (0 if kind == "uint8" else -128) <= v < 128 for v in y):
            return None
        return np.array([int(v) for v in y], dtype=kind)
    if kind in ("int", "series_int"):
        if strings or any(na(v) or v != int(v) for v in y):
            return None
        a = np.array([int(v) for v in y], dtype="int64")
        return a if kind == "int" else pd.Series(a)
    if kind == "float32":
        return None if strings else np.array(y, dtype="float32")
    if kind == "object":
        return np.array(y, dtype=object) if strings else None
    a = np.array(y) if strings else np.array(y, dtype=float)
    if kind == "array":
        return a
    if strings:
        a = np.array(y, dtype=object)
    if kind == "series":
        return pd.Series(a)
    return pd.Series(a, index=indexes(len(y))[kind[len("series_"):]])


# -- observing real objects

STATS = ("coverage", "prediction", "std", "sign", "zscore", "criterion", "train_set_size", "test_set_size")


def plain(x):
    """Scalars of numpy as those of Python."""
    return x.item() if isinstance(x, np.generic) else x


def bits_of(rule):
    a = rule.activation
    return None if a is None else [int(v) for v in a]


def observe(rule):
    out = {k: plain(getattr(rule, k, None)) for k in STATS}
    out["activation"] = bits_of(rule)
    out["condition"] = str(rule.condition)
    out["good"], out["bad_because"] = rule.good, rule.bad_because
    return out


def vals(series):
    """Values of a prediction vector as Python scalars, with the string 'nan' or None read as missing."""
    out = []
    for v in (series.values if isinstance(series, pd.Series) else series):
        v = plain(v)
        out.append(NAN if v is None or (isinstance(v, str) and v == "nan") or v is pd.NaT else v)
    return out


SCALES = (2.0**-200, 2.0**-60, 2.0**-40, 2.0**-20, 2.0**20, 2.0**40, 2.0**60, 2.0**200)
"""Magnitudes of targets: powers of two, so that a statistic of scaled targets is exactly the scaled statistic."""
OFFSETS = (2.0**26, -(2.0**26))
SCALED = {"prediction": 1, "std": 1, "mse": 2, "mae": 1}
SHIFTED = ("prediction",)


def check_scaled(ctx, got, want, scale, what, skip=()):
    """got: statistics for targets multiplied by scale; want: those of the targets."""
    for k, w in want.items():
        if k in skip or (k == "sign" and w is None):
            continue
        g = plain(got[k])
        ctx.eq(g if isinstance(g, str) or g is None else g / scale ** SCALED.get(k, 0), w, f"{what}, times {scale}: {k} (divided by the scale)")


def check_shifted(ctx, got, want, offset, what, skip=()):
    for k, w in want.items():
        if k in skip or (k == "sign" and w is None):
            continue
        g = plain(got[k])
        if k == "sign":
            ctx.eq(g, "-" if offset < 0 else "+", f"{what}, plus {offset}: sign")
        else:
            ctx.eq(g - offset if k in SHIFTED else g, w, f"{what}, plus {offset}: {k}", 1e-6)


def check_stats(ctx, rule, want, what, skip=(), tol=1e-9):
    for k, w in want.items():
        if k in skip or (k == "sign" and w is None):
            continue
        ctx.eq(plain(getattr(rule, k)), w, f"{what}: {k}", tol)
