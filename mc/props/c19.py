"""C19: rules extracted from a decision tree reproduce the tree."""
import itertools
import math

import numpy as np

from mc import ref
from mc.core import same

PROPERTY = "C19"
BOUNDS = {
    "quick": "real scikit-learn trees (regression and classification, depths 1 to 4, chains up to depth 40, up to 300 leaves, 30 features and 40 classes) fitted on all targets over {0, 1, 3} of 5 points of one feature, over {0, 1} of the 9 points of a 3x3 grid "
    "of two features, and on structured data of 1 to 8 features; boxes equal to and larger than the data, infinite; leaves shared nearly equally by classes, thresholds not exact in single precision with the closest points on both sides; leaf and all-node extraction, class and feature names; membership of every "
    "point of a grid that separates all thresholds",
    "thorough": "as quick, with all targets over {0, 1, 3} of 7 points and all targets over {0, 1} of 2x2x3 and 3x4 grids",
}
ASSUMPTIONS = [
    "trees have at least one split and the box contains the points the tree was fitted on; points on a split threshold are out of scope, as documented (bounds are closed)",
    "the predictions of the rules of inner nodes (all-node extraction) are not specified by the documentation: their regions are checked",
]


def cases(tier):
    n = 5 if tier == "quick" else 7
    for y in itertools.product((0, 1, 3), repeat=n):
        if len(set(y)) > 1:
            yield {"kind": "line", "y": list(y)}
    for y in itertools.product((0, 1), repeat=9):
        if len(set(y)) > 1:
            yield {"kind": "grid", "shape": [3, 3], "y": list(y)}
    if tier == "thorough":
        for shape in ((2, 2, 3), (3, 4)):
            for y in itertools.product((0, 1), repeat=12):
                if len(set(y)) > 1:
                    yield {"kind": "grid", "shape": list(shape), "y": list(y)}
    for d in (1, 2, 3, 5, 8):
        for depth in (1, 2, 3, 4, 6):
            for seed in range(3 if tier == "quick" else 20):
                yield {"kind": "structured", "d": d, "depth": depth, "seed": seed}


    for n in range(3, 42):
        yield {"kind": "chain", "n": n}
    for n in (16, 64, 100, 256, 300):
        yield {"kind": "leaves", "n": n}
    for n in (3, 10, 12, 26, 40):
        yield {"kind": "classes", "n": n}
    for n in (1, 2, 7, 50, 100, 101, 255, 256, 1000, 4096):
        yield {"kind": "shares", "n": n}
    for scale in ("tenths", "thirds", "close", "large", "small"):
        for seed in range(6 if tier == "quick" else 40):
            yield {"kind": "fine", "scale": scale, "seed": seed}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def fit(kind, x, y, depth):
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

    cls = DecisionTreeRegressor if kind == "reg" else DecisionTreeClassifier
    return cls(max_depth=depth, random_state=0).fit(x, y)


def probes(tree, lo, hi, d, cap=3000, fine=False):
    """Points of the box that are on no threshold: at least one in each cell between the thresholds of each feature."""
    t = tree.tree_
    axes = []
    for f in range(d):
        cuts = sorted({float(t.threshold[k]) for k in range(t.node_count) if t.feature[k] == f})
        cuts = [v for v in cuts if lo[f] < v < hi[f]]
        a = lo[f] if math.isfinite(lo[f]) else (cuts[0] if cuts else 0) - 4
        b = hi[f] if math.isfinite(hi[f]) else (cuts[-1] if cuts else 0) + 4
        edges = [a] + cuts + [b]
        vals = {a, b} if a not in cuts and b not in cuts else set()
        vals |= {(u + v) / 2 for u, v in zip(edges, edges[1:]) if u < v}
        if fine:  # the closest single-precision numbers on both sides of each threshold
            for v in cuts:
                w = np.float32(v)
                vals |= {np.nextafter(w, np.float32(-np.inf)), w, np.nextafter(w, np.float32(np.inf))}
        vals = sorted({float(np.float32(v)) for v in vals})
        axes.append([v for v in vals if v not in cuts and lo[f] <= v <= hi[f]] or [a])
    size = math.prod(map(len, axes))
    if size <= cap:
        return np.array(list(itertools.product(*axes)), dtype=float)
    # every step-th point of the grid, and, for each node of the tree, the first, middle and last points of the grid inside it
    pts = []
    for i in range(0, size, size // (cap // 2) + 1):
        p = []
        for a in reversed(axes):
            i, j = divmod(i, len(a))
            p.append(a[j])
        pts.append(p[::-1])
    todo = [(0, [(0, len(a)) for a in axes])]
    while todo:
        k, cell = todo.pop()
        if all(u < v for u, v in cell):
            for g in (lambda u, v: u, lambda u, v: (u + v) // 2, lambda u, v: v - 1):
                pts.append([a[g(u, v)] for a, (u, v) in zip(axes, cell)])
        if t.children_left[k] != -1:
            f = t.feature[k]
            cut = sum(v < t.threshold[k] for v in axes[f])
            u, v = cell[f]
            todo.append((t.children_left[k], cell[:f] + [(u, min(v, cut))] + cell[f + 1 :]))
            todo.append((t.children_right[k], cell[:f] + [(max(u, cut), v)] + cell[f + 1 :]))
    return np.array(pts, dtype=float)


def nodes(tree, x):
    """For each node, which of the points go through it."""
    path = tree.decision_path(x.astype("float32")).toarray()
    return {k: path[:, k].astype(int).tolist() for k in range(path.shape[1])}


def node_value(t, k, kind, classes):
    v = t.value[k][0]
    if kind == "reg":
        return float(v[0])
    i = int(np.argmax(v))
    return classes[i] if classes else i


def check(ctx, tree, kind, lo, hi, d, what, names=None, classes=None, rich=True, fine=False):
    from ruleskit import ClassificationRule, RegressionRule
    from ruleskit.utils.rule_utils import extract_rules_from_tree

    x = probes(tree, lo, hi, d, fine=fine)
    nm = names or [f"X_{i}" for i in range(d)]
    cls = RegressionRule if kind == "reg" else ClassificationRule
    before = (list(lo), list(hi))
    t = tree.tree_
    thr = (t.threshold.tobytes(), t.feature.tobytes(), t.value.tobytes())
    rs = extract_rules_from_tree(tree, lo, hi, features_names=names, classes_names=classes, get_leaf=True)
    ctx.step()
    leaves = [k for k in range(t.node_count) if t.children_left[k] == -1]
    pred = tree.predict(x)
    if kind != "reg":
        pos = [list(tree.classes_).index(p) for p in pred]
        pred = [classes[i] if classes else i for i in pos]
    inside = np.zeros(len(x), dtype=int)
    ctx.ensure(len(rs) == len(leaves), f"{what}: {len(rs)} rules for {len(leaves)} leaves")
    value = [None] * len(x)
    for r in rs:
        ctx.ensure(type(r) is cls, f"{what}: a {type(r)}")
        ctx.ensure([nm[i] for i in r.features_indexes] == list(r.features_names), f"{what}: {r.features_indexes} are named {r.features_names}")
        for n, a, b in zip(r.features_indexes, r.bmins, r.bmaxs):
            ctx.ensure(a >= lo[n] and b <= hi[n], f"{what}: {r.condition} is out of the box {lo} {hi}")
        act = np.asarray(r.condition.evaluate(x))
        inside += act
        for i in np.flatnonzero(act):
            value[i] = ref.plain(r.prediction)
    bad = np.flatnonzero(inside != 1)
    ctx.ensure(len(bad) == 0, lambda: f"{what}: {x[bad[0]].tolist()} is in {inside[bad[0]]} leaf rules")
    for i, (v, p) in enumerate(zip(value, pred)):
        p = ref.plain(p)
        if kind != "reg":
            # ties between classes are broken as the tree does
            ctx.ensure(v == p, lambda: f"{what}: at {x[i].tolist()} the rule predicts {v!r}, the tree {p!r}")
        else:
            ctx.eq(v, p, f"{what}: at {x[i].tolist()}")
    ctx.ensure((list(lo), list(hi)) == before and thr == (t.threshold.tobytes(), t.feature.tobytes(), t.value.tobytes()), f"{what}: the tree or the box was changed")
    if not rich:
        return len(leaves)
    # all nodes: one rule per side of each split, whose region is that of the child
    rs = extract_rules_from_tree(tree, lo, hi, features_names=names, classes_names=classes, get_leaf=False)
    ctx.step()
    through = nodes(tree, x)
    want = sorted(through[k] for s in range(t.node_count) if t.children_left[s] != -1 for k in (t.children_left[s], t.children_right[s]))
    got = sorted(np.asarray(r.condition.evaluate(x)).astype(int).tolist() for r in rs)
    ctx.ensure(len(got) == len(want), f"{what}: {len(got)} rules for {len(want)} sides of splits")
    ctx.ensure(got == want, lambda: f"{what}: the regions of the rules of all nodes differ from those of the tree: {[str(r.condition) for r in rs]}")
    for r in rs:
        ctx.ensure(type(r) is cls, f"{what}: a {type(r)}")
        ctx.ensure([nm[i] for i in r.features_indexes] == list(r.features_names), f"{what}: {r.features_indexes} are named {r.features_names}")
        # its prediction: that of the split or of the side (the documentation does not say which)
        region = np.asarray(r.condition.evaluate(x)).astype(int).tolist()
        allowed = []
        for s in range(t.node_count):
            for k in (t.children_left[s], t.children_right[s]):
                if k != -1 and through[k] == region:
                    allowed += [node_value(t, q, kind, classes) for q in (s, k)]
        ctx.ensure(any(same(ref.plain(r.prediction), v) for v in allowed), lambda: f"{what}: {r.condition} predicts {r.prediction!r}, the tree {allowed}")
    return len(leaves)


BOXES = ("data", "larger", "infinite", "array")


def box(name, x):
    lo, hi = x.min(axis=0).tolist(), x.max(axis=0).tolist()
    if name == "larger":
        return [v - 2.5 for v in lo], [v + 1.25 for v in hi]
    if name == "infinite":
        return [-math.inf] * len(lo), [math.inf] * len(hi)
    if name == "array":
        return np.array(lo), np.array(hi)
    return lo, hi


def both(ctx, x, y, what, depths, classes_kinds=(None, "names")):
    d = x.shape[1]
    for kind in ("reg", "cls"):
        for depth in depths:
            tree = fit(kind, x, y, depth)
            if tree.tree_.node_count == 1:
                ctx.outcome("no split")
                continue
            for b in BOXES:
                lo, hi = box(b, x)
                k = len(set(y))
                for names in (None, [f"feature {chr(122 - i)}" for i in range(d)]) if b == "data" else (None,):
                    for classes in (None, ["zero", "a name", "c"][:k]) if kind == "cls" and b == "data" else (None,):
                        n = check(ctx, tree, kind, lo, hi, d, f"{what}, {kind}, depth {depth}, box {b}", names, classes)
                ctx.state(what, kind, depth, b)
            ctx.outcome(f"{n} leaves")


def line(ctx, c):
    x = np.array([[0], [1], [2], [4], [8], [9], [12]][: len(c["y"])], dtype=float)
    both(ctx, x, c["y"], f"targets {c['y']} on a line", (1, 2, None))


def grid(ctx, c):
    x = np.array(list(itertools.product(*[range(n) for n in c["shape"]])), dtype=float)
    both(ctx, x, c["y"], f"targets {c['y']} on a grid {c['shape']}", (2, None))


def structured(ctx, c):
    d, depth, seed = c["d"], c["depth"], c["seed"]
    n = 60
    x = np.array([[((i * (7 + 2 * j) + seed * 5 + (i * i * (j + 1)) % 11) % 23) / 4 for j in range(d)] for i in range(n)])
    y = [(int(x[i, 0] * 4) * 3 + int(x[i, -1] * 4) * 5 + int(x[i, d // 2] * 2) * i % 7 + seed) % 3 for i in range(n)]
    d0 = x.shape[1]
    for kind in ("reg", "cls"):
        t = fit(kind, x, y, depth)
        if t.tree_.node_count == 1:
            continue
        for b in BOXES:
            lo, hi = box(b, x)
            k = check(ctx, t, kind, lo, hi, d0, f"structured {c}, {kind}, box {b}")
            ctx.state(c, kind, b)
        # the leaf rules, as a rule set, predict as the tree does
        from ruleskit.utils.rule_utils import extract_rules_from_tree

        lo, hi = box("larger", x)
        pts = probes(t, lo, hi, d0, cap=200)
        for stack in (False, True):
            rs = extract_rules_from_tree(t, lo, hi, get_leaf=True, stack_activation=stack, compute_activation=not stack)
            got = rs.predict(pts)
            want = [ref.plain(v) for v in t.predict(pts)]
            ctx.eq(ref.vals(got), want, f"structured {c}, {kind}: prediction of the rule set")
            ctx.step()
        ctx.outcome(f"{k} leaves")


def shares(ctx, c):
    """Leaves shared by two or three classes in nearly equal parts."""
    n = c["n"]
    for a, b, e in itertools.product((n, n + 1, n + 2), (n, n + 1), (0, n, n + 3)):
        x = np.array([[0]] * (a + b + e) + [[1]] * (2 * n), dtype=float)
        y = [1] * a + [0] * b + [2] * e + [0] * n + [1] * (n - 1) + [2]
        if len(set(y[: a + b + e])) < 2:
            continue
        tree = fit("cls", x, y, 1)
        if tree.tree_.node_count == 1:
            ctx.outcome("no split")
            continue
        lo, hi = box("data", x)
        for classes in (None, ["zero", "a name", "c"][: len(set(y))]):
            check(ctx, tree, "cls", lo, hi, 1, f"leaf of {a}, {b} and {e} points", None, classes)
        ctx.state(n, a, b, e)
        ctx.outcome("shared leaves")


def chain(ctx, c):
    """Deep trees: each split takes one point away, on the left, on the right or on both sides in turn, in 1 to 4 features."""
    n = c["n"]
    x = np.arange(n, dtype=float)
    for name, y in (
        ("left", [3.0**i for i in range(n)]), ("right", [3.0 ** (n - i) for i in range(n)]),
        ("both", [-(3.0 ** (n - 2 * i)) if 2 * i < n else 3.0 ** (2 * i - n) for i in range(n)]),
    ):
        for d in (1, 2, 4):
            xx = np.array([[v if (i + j) % d == 0 or d == 1 else (n - v) / 2 for j in range(d)] for i, v in enumerate(x)])
            for kind in ("reg", "cls"):
                yy = y if kind == "reg" else [int(i % 2) for i in range(n)]
                t = fit(kind, xx, yy, None)
                if t.tree_.node_count == 1:
                    continue
                for b in ("data", "infinite"):
                    lo, hi = box(b, xx)
                    check(ctx, t, kind, lo, hi, d, f"chain of {n} {name}, {d} features, {kind}, box {b}", rich=n < 16)
                ctx.state(n, name, d, kind)
                ctx.outcome(f"depth {t.get_depth()}")


def leaves(ctx, c):
    """Trees of many leaves, of 1 to 30 features."""
    n = c["n"]
    for d in (1, 2, 12, 30):
        x = np.array([[(i * (2 * j + 1) + j) % n for j in range(d)] for i in range(n)], dtype=float)
        for kind in ("reg", "cls"):
            y = [float((i * 37) % n) for i in range(n)] if kind == "reg" else [(i * 7 + i // 3) % 3 for i in range(n)]
            t = fit(kind, x, y, None)
            for b in ("data", "larger"):
                lo, hi = box(b, x)
                check(ctx, t, kind, lo, hi, d, f"{n} leaves, {d} features, {kind}, box {b}", rich=False)
            names = [f"v{d - j}" for j in range(d)]
            check(ctx, t, kind, lo, hi, d, f"{n} leaves, {d} named features, {kind}", names, rich=False)
            ctx.state(n, d, kind)
    ctx.outcome("many leaves")


def classes(ctx, c):
    """Many classes."""
    n = c["n"]
    x = np.array([[i // 2, i % 3] for i in range(2 * n)], dtype=float)
    y = [i // 2 for i in range(2 * n)]
    for depth in (2, 4, None):
        t = fit("cls", x, y, depth)
        lo, hi = box("larger", x)
        for names in (None, [f"class {n - i}" for i in range(n)], [chr(40 + i) * (i + 1) for i in range(n)]):
            check(ctx, t, "cls", lo, hi, 2, f"{n} classes, depth {depth}, classes {names}", None, names, rich=n < 16)
        ctx.state(n, depth)
    ctx.outcome("many classes")


def fine(ctx, c):
    """Thresholds that are not exact in single precision, and points next to them."""
    f, seed = c["scale"], c["seed"]
    k = np.array([[(i * 7 + seed * 3) % 11, (i * 5 + seed) % 13] for i in range(24)], dtype=float)
    if f == "tenths":
        x = k / 10 + 0.1
    elif f == "thirds":
        x = (k - 5) / 3
    elif f == "close":
        x = 1 + k * 2.0**-22
    elif f == "large":
        x = k * 1e9 + 12345
    else:
        x = (k + 1) * 1e-7
    x = x.astype("float32").astype(float)
    y = [int((k[i, 0] + 2 * k[i, 1] + seed) % 3) for i in range(24)]
    for kind in ("reg", "cls"):
        for depth in (1, 2, None):
            for cols in ((0,), (1,), (0, 1)):
                xx = x[:, list(cols)]
                t = fit(kind, xx, y, depth)
                if t.tree_.node_count == 1:
                    continue
                for b in ("data", "larger", "infinite"):
                    lo, hi = box(b, xx)
                    check(ctx, t, kind, lo, hi, len(cols), f"{c}, {kind}, depth {depth}, features {cols}, box {b}", fine=True)
                ctx.state(c, kind, depth, cols)
    ctx.outcome("fine thresholds")
