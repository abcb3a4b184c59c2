"""C09: conditions and rules are identified by the named intervals they state."""
import itertools
import math

import numpy as np

from mc import cond
from mc.cond import INF

PROPERTY = "C09"
IV = {"quick": ((0, 1), (0, 2), (1, 1), (2, 1)), "thorough": ((0, 1), (0, 2), (1, 1), (2, 1), (-INF, 1), (0.5, INF), (-1, 0))}
WIDE = tuple(range(4, 21)) + (31, 32, 33, 64, 65, 130)
NAMES = ("a", "b", "c")
BOUNDS = {
    t: f"all pairs of conditions over 3 named features, each absent or with one of {len(IV[t])} intervals, in all feature orders, sorted or not, by "
    "index and by name, as conditions and as rules; all histories of 3 changes of bounds, names, indexes and sorting; all permutations of up "
    "to 4 features; all pairs of 30 close or equal bounds; " + f"{len(WIDE)} numbers of features from 4 to 130, differing in one bound or name; malformed inputs"
    for t in IV
}
SETS = ("bmins", "bmaxs", "bmins_str", "bmaxs_str", "names", "indexes", "sort_index", "sort_name")


def all_conditions(tier):
    for combo in itertools.product((None,) + IV[tier], repeat=3):
        fs = [(k, *iv) for k, iv in enumerate(combo) if iv is not None]
        if fs:
            yield fs


def cases(tier):
    for i, _ in enumerate(all_conditions(tier)):
        yield {"kind": "pairs", "i": i}
    for ops in itertools.product(SETS, repeat=3 if tier == "quick" else 4):
        yield {"kind": "setters", "ops": list(ops)}
    for n in (1, 2, 3, 4):
        for crit in ("index", "name"):
            yield {"kind": "permutations", "n": n, "by": crit}
    for i in range(len(NEAR)):
        yield {"kind": "near", "i": i}
    for n in WIDE:
        yield {"kind": "wide", "n": n}
    yield {"kind": "refused"}
    yield {"kind": "empty"}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def make(fs, order=None, sort=True, names=NAMES, index=None):
    from ruleskit import HyperrectangleCondition as H

    order = order if order is not None else range(len(fs))
    f = [fs[k] for k in order]
    return H(
        features_indexes=[(index or (lambda x: x))(x[0]) for x in f], bmins=[x[1] for x in f], bmaxs=[x[2] for x in f],
        features_names=[names[x[0]] for x in f], sort=sort,
    )


# values that are close, or of several types; equal ones compare equal
NEAR = (0.0, -0.0, 5e-324, 1e-13, -1e-13, 1, 1.0, True, math.nextafter(1, 2), math.nextafter(1, 0), 1 + 1e-13, 1 + 1e-9, 1.00001, 0.1 + 0.2, 0.3, 1e16, 1e16 + 2, 2**53, 2**53 + 1,
        2.0**53, 1e300, math.nextafter(1e300, INF), INF, 16777216, 16777217, 123456.7, 123456.70000001, "np1", "npf1", "np32")


def val(v):
    return {"np1": np.int64(1), "npf1": np.float64(1), "np32": np.float32(0.3)}[v] if isinstance(v, str) else v


def near(ctx, c):
    """Bounds that differ by as little as a unit in the last place make different conditions; equal numbers of other types the same."""
    from ruleskit import RegressionRule

    v = val(NEAR[c["i"]])
    for w in NEAR:
        w = val(w)
        same = bool(v == w)
        for fa, fb in (([(0, v, 1e301)], [(0, w, 1e301)]), ([(0, -5, v)], [(0, -5, w)]), ([(0, 0, 1), (1, v, 1e301)], [(0, 0, 1), (1, w, 1e301)]),
                       ([(0, -5, v), (1, 2, 3)], [(0, -5, w), (1, 2, 3)])):
            x, y = make(fa), make(fb, range(len(fb))[::-1], sort=False)
            for p, q in ((x, y), (RegressionRule(x), RegressionRule(y))):
                ctx.ensure((p == q) is same and (q == p) is same and (p != q) is (not same), f"{fa} == {fb} is {p == q}, expected {same}")
                ctx.ensure(len({p, q}) == (1 if same else 2), f"{fa} and {fb} are {len({p, q})} elements of a set")
                ctx.step()
        ctx.outcome("equal" if same else "different")
        ctx.state(c["i"], str(w))


def content(c):
    return {n: (lo, hi) for n, lo, hi in zip(c.features_names, c.bmins, c.bmaxs)}


def pairs(ctx, c):
    from ruleskit import ClassificationRule, RegressionRule

    al = list(all_conditions(ctx.tier))
    a = al[c["i"]]
    versions = []
    for order in itertools.permutations(range(len(a))):
        for sort in (True, False):
            v = make(a, order, sort)
            ctx.ensure(v.impossible == any(lo > hi for _, lo, hi in a), f"{v}: impossible is {v.impossible}")
            versions.append(v)
    # indexes do not identify a condition
    versions.append(make(a, index=lambda x: x + 5))
    versions.append(make(a, index=lambda x: 9 - x))
    for v, w in itertools.product(versions[:4] + versions[-2:], versions):
        ctx.ensure(v == w and not (v != w), f"{v} != {w}")
        ctx.ensure(hash(v) == hash(w), f"hashes of {v} and {w} differ")
        ctx.ensure(len({v, w}) == 1, f"{v} and {w} are two elements of a set")
        ctx.step()
    other_names = make(a, names=("a", "b", "d") if a[0][0] != 0 or len(a) == 3 else ("e", "b", "c"))
    for b in al:
        cb = make(b)
        same = a == b
        for cls in (None, RegressionRule, ClassificationRule):
            x, y = (versions[-3], cb) if cls is None else (cls(versions[-3]), cls(cb))
            ctx.ensure((x == y) is same and (y == x) is same, f"{x} == {y} is {x == y}, expected {same}")
            ctx.ensure((x != y) is (not same), f"{x} != {y} is {x != y}")
            if same:
                ctx.ensure(hash(x) == hash(y), f"hashes of {x} and {y} differ")
            else:
                ctx.ensure(len({x, y}) == 2, f"{x} and {y} are one element of a set")
            ctx.step()
        ctx.outcome("equal" if same else "different")
        ctx.state(a, b)
    if content(other_names) != content(versions[0]):
        ctx.ensure(versions[0] != other_names, f"{versions[0]} == {other_names}")
    for cls in (RegressionRule, ClassificationRule):
        r = cls(versions[0])
        for o in (None, 1, "x", versions[0], str(versions[0])):
            ctx.ensure((r == o) is False, f"rule {r} == {o!r}")
            if not (o is versions[0]):
                ctx.ensure((versions[0] == o) is False, f"condition {versions[0]} == {o!r}")


VALS = ((0, 1), (3, 0.5), (2, 2), (-1, 7.25))


def setters(ctx, c):
    """Model: list of [name, index, lo, hi]; every change keeps the others, the impossible flag follows the bounds."""
    from ruleskit import HyperrectangleCondition as H

    for start_sort in (True, False):
        H.SORT_ACCORDING_TO = "index"
        model = [["b", 4, 0, 2], ["a", 7, 1, 1.5]]
        cd = H(features_indexes=[4, 7], bmins=[0, 1], bmaxs=[2, 1.5], features_names=["b", "a"], sort=start_sort)
        for k, op in enumerate(c["ops"]):
            v = list(VALS[k % 4])
            if op == "bmins":
                cd.bmins = list(v)
            elif op == "bmaxs":
                cd.bmaxs = list(v)
            elif op == "bmins_str":
                cd.bmins = str(v)
            elif op == "bmaxs_str":
                cd.bmaxs = str(v)
            elif op == "names":
                cd.features_names = [f"n{k}", f"m{k}"]
            elif op == "indexes":
                cd.features_indexes = [20 + k, 10 + k]
            elif op == "sort_index":
                H.SORT_ACCORDING_TO = "index"
                cd.sort()
                model.sort(key=lambda m: m[1])
            else:
                H.SORT_ACCORDING_TO = "name"
                cd.sort()
                model.sort(key=lambda m: m[0])
            for j in (0, 1):
                if op.startswith("bmins"):
                    model[j][2] = v[j]
                elif op.startswith("bmaxs"):
                    model[j][3] = v[j]
                elif op == "names":
                    model[j][0] = (f"n{k}", f"m{k}")[j]
                elif op == "indexes":
                    model[j][1] = (20 + k, 10 + k)[j]
            got = [list(t) for t in zip(cd.features_names, cd.features_indexes, cd.bmins, cd.bmaxs)]
            what = f"after {c['ops'][:k + 1]}"
            ctx.ensure(got == model, f"{what}: condition is {got}, expected {model}")
            ctx.ensure(len(cd) == 2 and [list(cd[i]) for i in (0, 1)] == model, f"{what}: items are {[cd[i] for i in (0, 1)]}")
            imp = any(m[2] > m[3] for m in model)
            ctx.ensure(cd.impossible == imp, f"{what}: impossible is {cd.impossible} for {cd}, expected {imp}")
            fresh = H(features_indexes=[m[1] for m in model], bmins=[m[2] for m in model], bmaxs=[m[3] for m in model], features_names=[m[0] for m in model])
            ctx.ensure(cd == fresh and hash(cd) == hash(fresh), f"{what}: {cd} differs from a new condition with the same content")
            import pandas as pd

            xs = pd.DataFrame(list(itertools.product((-1, 0, 0.5, 1, 1.25, 2, 3, 7.25), repeat=2)), columns=[m[0] for m in model])
            want = [cond.met([(0, model[0][2], model[0][3]), (1, model[1][2], model[1][3])], r) for r in xs.values]
            ctx.ensure(cd.evaluate(xs).tolist() == want, f"{what}: {cd} is not evaluated with its bounds")
            arr = np.full((len(xs), 40), 1e6)
            arr[:, model[0][1]], arr[:, model[1][1]] = xs.values[:, 0], xs.values[:, 1]
            ctx.ensure(cd.evaluate(arr).tolist() == want, f"{what}: {cd} is not evaluated with its bounds on an array")
            for bad in (("bmins", [1]), ("bmaxs", [1, 2, 3]), ("features_names", ["z"]), ("features_indexes", [1]),
                        ("features_names", ["z", "z"]), ("features_indexes", [3, 3])):
                ctx.raises(lambda: setattr(cd, *bad), f"{what}: {bad}")
            got = [list(t) for t in zip(cd.features_names, cd.features_indexes, cd.bmins, cd.bmaxs)]
            ctx.ensure(got == model, f"{what}: a refused change modified the condition: {got}")
            ctx.step()
            ctx.state(model)
    ctx.outcome("impossible at the end" if imp else "possible at the end")


def permutations(ctx, c):
    from ruleskit import HyperrectangleCondition as H

    H.SORT_ACCORDING_TO = c["by"]
    n = c["n"]
    # names and indexes are not in the same order; bounds are repeated, to see ties
    base = [("d", 0, 1, 5), ("a", 1, 1, 4), ("c", 10, -1, 4), ("b", 2, 1.5, 1.75)][:n]
    want = sorted(base, key=lambda t: t[1] if c["by"] == "index" else t[0])
    conds = []
    for order in itertools.permutations(range(n)):
        f = [base[k] for k in order]
        kw = dict(features_indexes=[t[1] for t in f], bmins=[t[2] for t in f], bmaxs=[t[3] for t in f], features_names=[t[0] for t in f])
        for sort in (True, False):
            cd = H(**{k: list(v) for k, v in kw.items()}, sort=sort)
            got = list(zip(cd.features_names, cd.features_indexes, cd.bmins, cd.bmaxs))
            ctx.ensure(sorted(got) == sorted(base), f"{kw} becomes {got}")
            if sort:
                ctx.ensure(got == want, f"{kw} sorted by {c['by']} is {got}")
            else:
                ctx.ensure(got == f, f"{kw} unsorted is {got}")
                cd.sort()
                ctx.ensure(list(zip(cd.features_names, cd.features_indexes, cd.bmins, cd.bmaxs)) == want, f"{kw} then sort() is {cd}")
            conds.append(cd)
            ctx.step()
            ctx.state(c, order, sort)
    ctx.ensure(len(set(conds)) == 1, "permutations of a condition differ")
    ctx.outcome("permutations")


def refused(ctx, c):
    from ruleskit import HyperrectangleCondition as H

    good = dict(features_indexes=[0, 1], bmins=[0, 0], bmaxs=[1, 1], features_names=["a", "b"])
    H(**good)
    for k, v in (
        ("features_indexes", [0, 0]), ("features_names", ["a", "a"]), ("bmins", [0]), ("bmaxs", [0, 1, 2]), ("features_names", ["a"]),
        ("features_indexes", [0]), ("bmins", None), ("bmaxs", None), ("features_names", [1, 2]), ("bmins", ["0", "1"]), ("bmaxs", ["0", "1"]),
        ("features_indexes", [0.5, 1.5]), ("features_indexes", ["0", "1"]),
    ):
        ctx.raises(lambda: H(**{**good, k: v}), f"condition with {k}={v}")
        ctx.step()
    ctx.raises(lambda: H(bmins=[0], bmaxs=[1]), "condition without features")
    for n in (3, 4, 5):
        for i, j in itertools.combinations(range(n), 2):
            ix = list(range(n))
            ix[j] = ix[i]
            ctx.raises(lambda: H(features_indexes=ix, bmins=[0] * n, bmaxs=[1] * n, features_names=[f"f{k}" for k in range(n)]), f"duplicated indexes {ix}")
            ctx.raises(lambda: H(features_indexes=list(range(n)), bmins=[0] * n, bmaxs=[1] * n, features_names=[f"f{k}" for k in ix]), f"duplicated names {ix}")
    ctx.outcome("refused")


def empty(ctx, c):
    from ruleskit import HyperrectangleCondition as H

    a, b = H(empty=True), H(empty=True)
    n = H(features_indexes=[0], bmins=[0], bmaxs=[1])
    ctx.ensure(a == b, "empty conditions differ")
    ctx.ensure(a != n and n != a, "an empty condition equals another one")
    ctx.ensure(len(a) == 0, "an empty condition has features")
    # filled afterwards
    for order in itertools.permutations(("features_names", "features_indexes", "bmins", "bmaxs")):
        e = H(empty=True)
        vals = {"features_names": ["X_0", "X_1"], "features_indexes": [0, 1], "bmins": [0.25, 3], "bmaxs": [1, 2]}
        for k in order:
            setattr(e, k, vals[k])
        w = H(features_indexes=[0, 1], bmins=[0.25, 3], bmaxs=[1, 2])
        ctx.ensure(e == w and hash(e) == hash(w), f"condition filled in order {order} is {e}")
        ctx.ensure(e.impossible, f"condition filled in order {order} is not impossible")
        ctx.step()
    ctx.outcome("empty")


def wide(ctx, c):
    """Conditions of many features that differ in a single bound or name are different; orders do not matter."""
    from ruleskit import ClassificationRule, HyperrectangleCondition as H

    n = c["n"]
    base = [(f"f{k:03d}", (5 * k) % n if n % 5 else k, -float(k), float(k + 1)) for k in range(n)]

    def mk(f, sort=True):
        return H(features_indexes=[t[1] for t in f], bmins=[t[2] for t in f], bmaxs=[t[3] for t in f], features_names=[t[0] for t in f], sort=sort)

    a = mk(base)
    same = [mk(base[::-1]), mk(base[::-1], False), mk(base[n // 2:] + base[:n // 2], False), mk(base[1::2] + base[::2])]
    other = []
    for k in range(n):
        nm, ix, lo, hi = base[k]
        for t in ((nm, ix, lo - 1, hi), (nm, ix, lo, hi + 1), ("g" + nm, ix, lo, hi), None):
            other.append(mk(base[:k] + ([t] if t else []) + base[k + 1:]))
        l = (k + 1) % n
        sw = list(base)
        sw[k], sw[l] = (nm, ix) + base[l][2:], base[l][:2] + (lo, hi)
        other.append(mk(sw))
    for wrap in (lambda x: x, ClassificationRule):
        x = wrap(a)
        for y in map(wrap, same):
            ctx.ensure(x == y and y == x and not x != y and hash(x) == hash(y) and len({x, y}) == 1, f"{n} features: {x} differs from {y}")
            ctx.step()
        for y in map(wrap, other):
            ctx.ensure(not x == y and not y == x and x != y and len({x, y}) == 2, f"{n} features: {x} is not told from {y}")
            ctx.step()
    ctx.ensure(len({a, *same, *other}) == 1 + len(set(map(lambda o: tuple(sorted(content(o).items())), other))), f"{n} features: a set of different conditions has lost some")
    ctx.state("wide", n)
    ctx.outcome("wide")
