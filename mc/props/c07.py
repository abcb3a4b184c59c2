"""C07: a condition is met exactly at the points inside its closed hyper-rectangle."""
import itertools

import numpy as np
import pandas as pd

from mc import cond, vec
from mc.cond import INF, NAN

PROPERTY = "C07"
V1 = (-INF, -2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, INF, NAN)
B1 = (-INF, -1, -0.5, 0, 0.5, 1, 2.0, INF)
V2 = (-INF, -1.0, 0.0, 0.5, 1.0, 2.0, INF, NAN)
B2 = {"quick": (-INF, -1, 0.5, 1, INF), "thorough": (-INF, -1, 0, 0.5, 1, 2, INF)}
V3 = (-1.0, 0.0, 1.0, NAN, INF)
B3 = ((-1, 0), (0, 0), (0, INF), (-INF, 1), (1, -1))
LAYOUTS = ([0, 1], [1, 0], [2, 0], [3, 1], [0, 3])
WIDE = tuple(range(4, 21)) + (31, 32, 33, 63, 64, 65, 100, 130)
NEAR = (0.1, 1 / 3, 1.0, 2.5, 1000.3, 16777217.0, 1e9 + 0.5, 1e12 + 0.25, 1e300, 1e-7, 1e-12, 1e-300, 0.0)
KINDS2 = ("array", "fortran", "strided", "frame", "shuffled", "frame_reversed", "frame_same", "frame_strings", "frame_multi")
BOUNDS = {
    t: f"1 feature: all {len(B1)}^2 bound pairs x {len(V1)} values x all containers x 4 columns; 2 features: all {len(B2[t])}^4 bounds x "
    f"{len(V2)}^2 points x {len(LAYOUTS)} layouts of feature indexes x 9 containers; 3 features: all {len(B3)}^3 intervals x {len(V3)}^3 points "
    f"x 6 feature orders; {len(NEAR)} magnitudes from 1e-300 to 1e300 x 22 intervals x points at 0, 1 ulp and 1e-15..1e-3 (relative) of a bound; sorted by index, by name and unsorted; integer, float32 data, single rows, empty-free large data of 300 and 70000 rows; "
    f"{len(WIDE)} numbers of features from 4 to 130, 300 features: each feature alone outside, at and inside its bounds; rules in every storage setting"
    for t in B2
}
ASSUMPTIONS = ["bounds are not NaN", "data frames have one column per feature name"]


def enc(x):
    return str(x) if x in (INF, -INF) or x != x else x


def cases(tier):
    for lo, hi in itertools.product(B1, repeat=2):
        for col in range(4):
            yield {"kind": "one", "lo": enc(lo), "hi": enc(hi), "col": col}
    for lo, hi in itertools.product(B2[tier], repeat=2):
        for layout in LAYOUTS:
            yield {"kind": "two", "lo": enc(lo), "hi": enc(hi), "layout": layout}
    for a, b in itertools.product(B3, repeat=2):
        for order in itertools.permutations((0, 1, 2)):
            yield {"kind": "three", "a": [enc(x) for x in a], "b": [enc(x) for x in b], "order": list(order)}
    for n in (1, 255, 256, 257, 300, 1000, 70000):
        yield {"kind": "size", "n": n}
    for k in range(len(NEAR)):
        yield {"kind": "near", "k": k}
    for d in WIDE:
        yield {"kind": "wide", "d": d}
    for k in ("ints", "refused", "sortname", "onehundred"):
        yield {"kind": k}


def evaluate(ctx, c, xs, want, what, pure=True):
    before = cond.frozen(xs) if pure else None
    r = c.evaluate(xs)
    ctx.step()
    ctx.ensure(isinstance(r, np.ndarray) and r.shape == (len(want),), lambda: f"{what}: result is {type(r)} of shape {getattr(r, 'shape', None)}")
    ctx.ensure(r.tolist() == want, lambda: f"{what}: {diff(r.tolist(), want)}")
    if pure:
        ctx.ensure(cond.frozen(xs) == before, f"{what}: the data were modified")


def diff(got, want):
    i = next(i for i in range(len(want)) if got[i] != want[i])
    return f"row {i} is {got[i]}, expected {want[i]}"


def names(n=4):
    return [f"X_{i}" for i in range(n)]


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def one(ctx, c):
    lo, hi, col = cond.num(c["lo"]), cond.num(c["hi"]), c["col"]
    rows = [[0.25 + j if j != col else v for j in range(4)] for v in V1]
    want = cond.bits([(col, lo, hi)], rows)
    cd = cond.build([(col, lo, hi)])
    ctx.ensure(cd.impossible == (lo > hi), f"{cd}: impossible is {cd.impossible}")
    for k, xs in cond.containers(rows, names()):
        evaluate(ctx, cd, xs, want, f"{cd} on {k}")
    # rows one by one
    for r, w in zip(rows, want):
        evaluate(ctx, cd, np.array([r]), [w], f"{cd} on the row {r}")
        evaluate(ctx, cd, pd.DataFrame([r], columns=names(), index=["z"]), [w], f"{cd} on the frame row {r}")
    # names given, indexes not
    from ruleskit import HyperrectangleCondition, RegressionRule

    named = HyperrectangleCondition(bmins=[lo], bmaxs=[hi], features_names=[f"X_{col}"])
    evaluate(ctx, named, pd.DataFrame(rows, columns=names()), want, f"{named} given by name")
    for s in vec.settings():
        vec.apply_settings(s)
        for local in (True, False):
            RegressionRule.LOCAL_ACTIVATION = local
            a = RegressionRule(cd).evaluate_activation(np.array(rows))
            vec.check(ctx, a, want, f"rule {cd}, settings {s}", ("raw", "length", "nones"))
    ctx.state(c, want)
    ctx.outcome(f"met at {sum(want)} points")


def two(ctx, c):
    lo, hi = cond.num(c["lo"]), cond.num(c["hi"])
    i, j = c["layout"]
    pts = list(itertools.product(V2, repeat=2))
    rows = [[p[0] if k == i else p[1] if k == j else 9.0 + k for k in range(4)] for p in pts]
    conts = list(cond.containers(rows, names(), KINDS2))
    ref = [cond.frozen(xs) for _, xs in conts]
    for n, (lo2, hi2) in enumerate(itertools.product(B2[ctx.tier], repeat=2)):
        fs = [(i, lo, hi), (j, lo2, hi2)]
        want = cond.bits(fs, rows)
        for sort in (True, False):
            cd = cond.build(fs, sort=sort, names=bool(n % 2))
            for k, xs in conts:
                if sort or k in ("array", "frame"):
                    evaluate(ctx, cd, xs, want, f"{cd} (indexes {cd.features_indexes}, sort={sort}) on {k}", pure=False)
        ctx.state(c, lo2, hi2)
    ctx.ensure([cond.frozen(xs) for _, xs in conts] == ref, "the data were modified")
    ctx.outcome("two features")


def three(ctx, c):
    a, b = [[cond.num(x) for x in p] for p in (c["a"], c["b"])]
    rows = [list(p) for p in itertools.product(V3, repeat=3)]
    conts = list(cond.containers(rows, names(3), ("array", "frame", "shuffled", "frame_reversed")))
    for third in B3:
        fs = [(0, *a), (1, *b), (2, *third)]
        want = cond.bits(fs, rows)
        for sort in (True, False):
            cd = cond.build([fs[k] for k in c["order"]], sort=sort)
            for k, xs in conts:
                evaluate(ctx, cd, xs, want, f"{cd} (sort={sort}) on {k}")
        ctx.state(c, third)
    ctx.outcome("three features")


def size(ctx, c):
    n = c["n"]
    rows = [[float((i * 7) % 11), float(i % 3)] for i in range(n)]
    for fs in ([(0, 2, 7)], [(0, 2, 7), (1, 1, 2)], [(1, 0, 0)], [(0, 100, 101)], [(0, 0, 10), (1, 0, 2)], [(1, 1, 0)]):
        want = cond.bits(fs, rows)
        cd = cond.build(fs)
        for k, xs in cond.containers(rows, names(2), ("array", "frame", "int8", "int", "frame_same", "float32")):
            evaluate(ctx, cd, xs, want, f"{cd} on {k} of {n} rows")
        ctx.state(n, fs)
    ctx.outcome("sizes")


def near(ctx, c):
    """Points next to a bound: one unit in the last place, and relative distances up to 1e-3, on both sides."""
    for sign in (1, -1):
        b = sign * NEAR[c["k"]]
        d = [b, float(np.nextafter(b, INF)), float(np.nextafter(b, -INF))]
        for e in (1e-15, 1e-12, 1e-9, 1e-8, 1e-6, 1e-5, 1e-3):
            d += [b * (1 + e), b * (1 - e)] if b else [e, -e]
        ivs = [(b, b), (-INF, b), (b, INF), (b - abs(b), b), (b, b + abs(b))] + [(min(b, x), max(b, x)) for x in d[1:]]
        rows = [[x, float(j % 2)] for j, x in enumerate(d)]
        conts = list(cond.containers(rows, names(2), ("array", "fortran", "frame", "shuffled")))
        for lo, hi in ivs:
            for fs in ([(0, lo, hi)], [(0, lo, hi), (1, 0, 0)], [(0, lo, hi), (1, 0, 1)]):
                cd = cond.build(fs)
                for k, xs in conts:
                    evaluate(ctx, cd, xs, cond.bits(fs, rows), f"{cd} next to its bounds on {k}")
                for r in rows[:3]:
                    evaluate(ctx, cd, np.array([r]), cond.bits(fs, [r]), f"{cd} on the row {r}")
            ctx.state("near", b, lo, hi)
    ctx.outcome("points next to a bound")


def ints(ctx, c):
    for dt in ("int8", "int16", "int32", "int64", "uint8", "float16", "float32", "float64", "bool"):
        vals = [0, 1] if dt == "bool" else [0, 1, 2, 3, 100]
        rows = [list(p) for p in itertools.product(vals, repeat=2)]
        arr = np.array(rows).astype(dt)
        for lo, hi in ((0, 0), (1, 2), (0.5, 2.5), (-1, 1), (2, 1), (-300, 300), (1.5, 1.7), (3, INF), (-INF, 0)):
            fs = [(0, lo, hi), (1, 1, 3)]
            cd = cond.build(fs)
            want = cond.bits(fs, rows)
            evaluate(ctx, cd, arr, want, f"{cd} on {dt}")
            evaluate(ctx, cd, pd.DataFrame(arr, columns=["X_0", "X_1"]), want, f"{cd} on a frame of {dt}")
            ctx.state(dt, lo, hi)
    ctx.outcome("dtypes")


def refused(ctx, c):
    cd = cond.build([(0, 0, 1), (2, 0, 1)])
    ctx.raises(lambda: cd.evaluate(np.zeros((3, 2))), "an array without the column of the condition")
    ctx.raises(lambda: cd.evaluate(pd.DataFrame(np.zeros((3, 2)), columns=["X_0", "X_1"])), "a frame without the column of the condition")
    ctx.step(2)
    ctx.outcome("refused")


def sortname(ctx, c):
    from ruleskit import HyperrectangleCondition

    rows = [list(p) for p in itertools.product(V3, repeat=3)]
    ns = ["b", "c", "a"]
    for crit in ("index", "name"):
        HyperrectangleCondition.SORT_ACCORDING_TO = crit
        for order in itertools.permutations((0, 1, 2)):
            for iv in itertools.product(B3[:4], repeat=3):
                fs = [(k, *iv[k]) for k in range(3)]
                cd = cond.build([fs[k] for k in order], names=ns)
                want = cond.bits(fs, rows)
                evaluate(ctx, cd, np.array(rows), want, f"{cd} sorted by {crit}", pure=False)
                evaluate(ctx, cd, pd.DataFrame(rows, columns=ns)[["a", "b", "c"]], want, f"{cd} sorted by {crit} on a frame", pure=False)
    ctx.outcome("sorted by name")


def onehundred(ctx, c):
    """More features than fit in a byte, each of them deciding."""
    d = 300
    fs = [(k, 0, 1) for k in range(d)]
    cd = cond.build(fs)
    rows = [[0.5] * d] + [[0.5 if j != k else v for j in range(d)] for k in (0, 1, 127, 128, 254, 255, 256, 299) for v in (-1, 2, NAN, 0, 1)]
    for k, xs in cond.containers(rows, names(d), ("array", "frame", "shuffled")):
        evaluate(ctx, cd, xs, cond.bits(fs, rows), f"300 features on {k}")
    ctx.outcome("300 features")


def wide(ctx, c):
    """Each of many features decides alone, on both of its sides; bounds differ from feature to feature."""
    d = c["d"]
    fs = [(k, -1.0 - k, 0.5 + 2 * k) for k in range(d)]
    rows = [[0.25] * d]
    for k in range(d):
        for v in (-1.0 - k, 0.5 + 2 * k, -1.5 - k, 1.0 + 2 * k, NAN):
            rows.append([0.25 if j != k else v for j in range(d)])
    for sort, order in ((True, range(d)), (True, range(d)[::-1]), (False, range(d)[::-1])):
        cd = cond.build([fs[k] for k in order], sort=sort)
        want = cond.bits(fs, rows)
        for k, xs in cond.containers(rows, names(d), ("array", "frame", "frame_reversed")):
            evaluate(ctx, cd, xs, want, f"{d} features on {k}")
        ctx.state("wide", d, sort, list(order))
    # the features are part of a larger table, in another order than its columns
    big = np.full((len(rows), 3 * d), 1e6)
    ix = [(7 * k) % d * 3 + 1 if d % 7 else k * 3 + 1 for k in range(d)]
    big[:, ix] = np.array(rows)
    cd = cond.build([(ix[k], fs[k][1], fs[k][2]) for k in range(d)])
    evaluate(ctx, cd, big, want, f"{d} features of {3 * d} columns")
    # no point at all
    for k in (0, d // 2, d - 1):
        imp = cond.build([(j, lo, hi) if j != k else (j, hi, lo) for j, lo, hi in fs])
        ctx.ensure(imp.impossible, f"feature {k} of {d} has its bounds reversed, and the condition is not impossible")
        evaluate(ctx, imp, np.array(rows), [0] * len(rows), f"{d} features, impossible")
    ctx.outcome("wide")
