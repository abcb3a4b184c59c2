"""C18: saving then loading a rule set gives an equivalent rule set."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import cond, ref

PROPERTY = "C18"
INF, NAN = math.inf, math.nan
IV = ((0, 1), (0.1, 1 / 3), (-INF, 0.5), (0.25, INF), (-INF, INF), (-1e-17, 1e300), (2, 1), (np.float64(0.1), np.int64(1)))
NAMES = {
    "plain": ["a", "b", "c"], "default": None, "spaces": ["first feature", "second, feature", "third; 'feature'"], "quotes": ['a"b', "c'd", "e\"'f"],
    "brackets": ["x[0]", "y{1}", "(z)"], "unicode": ["é", "ß", "名"], "digits": ["0", "1", "10"], "words": ["inf", "nan", "None"], "backslash": ["a\\b", "tab\tc", "d\\n"],
    "commas": ["a, b", "c,d", ","], "similar": ["a", "aa", "a a"],
}
LABELS = {
    "ints": (0, 1, 2), "negative": (-1, -2, 10**6), "floats": (0.5, -2.25, 1e-9), "words": ("yes", "no", "maybe"), "spaces": ("class one", " two ", "a, b"),
    "quotes": ("it's", 'say "x"', "a'b\"c"), "unicode": ("é", "名前", "ß"), "dashes": ("a-b", "1-2", "x+1"), "case": ("A", "a", "Aa"), "long": ("x" * 40, "x" * 41, "y z" * 30),
    "numbered": ("class 1", "1st", "v1.5"), "symbols": ("<=3", "[a", "a]"),
}
STATES = ("unfitted", "fitted", "evaluated", "kept", "forced")
OPS = ("fit1", "fit2", "keep1", "keep2", "sort", "sort_cov", "append", "trip", "slice")
DEPTH = {"quick": 3, "thorough": 5}
ROWS = [list(p) for p in itertools.product((-1, 0, 0.1, 0.25, 0.3, 0.5, 1, 2), repeat=3)][::53]
BOUNDS = {
    t: f"all conditions over 2 features with {len(IV)} intervals each (infinite, impossible, numbers of all magnitudes and types); all rule sets of up to 3 rules among 4 in all orders x {len(STATES)} "
    f"states x both types; {len(NAMES)} kinds of names, {len(LABELS)} kinds of labels; all histories of {DEPTH[t]} operations ({DEPTH[t] - 1 if t == 'quick' else DEPTH[t]} for classification) among {len(OPS)} in lockstep with a saved and loaded copy; up to 300 rules; up to 130 features; files loaded in sets that have other rules, in all pairs of states; all sets of 3 rules fitted or not, then fitted or evaluated; rules of two saved sets (with the same names) put together; "
    "predictions compared on 10 points of a grid"
    for t in DEPTH
}
ASSUMPTIONS = ["labels that read as Python literals or as missing values in CSV ('1', 'None', 'NA') are out of scope: the format does not keep their type"]


def cases(tier):
    for a, b in itertools.product([None] + list(range(len(IV))), repeat=2):
        if a is not None or b is not None:
            yield {"kind": "conditions", "a": a, "b": b}
    for cls in ("reg", "cls"):
        for n in (0, 1, 2, 3):
            for sel in itertools.permutations(range(4), n):
                for st in STATES:
                    yield {"kind": "sets", "cls": cls, "rules": list(sel), "state": st}
        for k in NAMES:
            yield {"kind": "names", "cls": cls, "names": k}
        for ops in itertools.product(OPS, repeat=DEPTH[tier] - (tier == "quick" and cls == "cls")):
            yield {"kind": "history", "cls": cls, "ops": list(ops)}
        for n in (9, 10, 11, 99, 100, 101, 255, 256, 300):
            yield {"kind": "many", "cls": cls, "n": n}
        for n in (8, 10, 16, 33, 64, 100, 130):
            yield {"kind": "wide", "cls": cls, "n": n}
        for first, second in itertools.product(STATES, repeat=2):
            for sfit in (False, True):
                yield {"kind": "over", "cls": cls, "first": first, "second": second, "sfit": sfit}
        for mask in range(8):
            for sfit in (False, True):
                yield {"kind": "unfitted", "cls": cls, "mask": mask, "sfit": sfit}
        for m, n in itertools.product((1, 2, 3), repeat=2):
            yield {"kind": "merged", "cls": cls, "sizes": [m, n]}
    for k in LABELS:
        yield {"kind": "labels", "labels": k}
    yield {"kind": "statistics"}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def klass(k):
    import ruleskit

    return ruleskit.RegressionRule if k == "reg" else ruleskit.ClassificationRule


def nn(x):
    return NAN if x is None else ref.plain(x)


def rule_view(r):
    out = {
        "type": type(r).__name__, "features": sorted([n, int(i), float(a), float(b)] for n, i, a, b in zip(r.features_names, r.features_indexes, r.bmins, r.bmaxs)), "condition": r.condition, "fitted": r.prediction is not None,
    }
    for a in ("prediction", "coverage", "criterion") + (("std", "zscore") if out["type"] == "RegressionRule" else ()):
        out[a] = nn(getattr(r, a))
    if out["type"] == "RegressionRule":
        out["sign"] = None if ref.na(out["prediction"]) else r.sign
    return out


def set_view(s):
    return {
        "coverage": nn(s.ruleset_coverage), "criterion": nn(s.criterion), "train": nn(s.train_set_size), "test": nn(s.test_set_size), "names": sorted(s.features_names),
        "indexes": sorted(int(i) for i in s.features_indexes), "count": sorted(s.get_features_count()), "n": len(s),
    }


def content(s):
    st = s.stacked_activations
    return repr(([ref.observe(r) for r in s.rules], [(r.features_names, list(map(float, r.bmins)), list(map(float, r.bmaxs))) for r in s.rules], s.activation, None if st is None else st.to_csv(), set_view(s)))


def equivalent(ctx, a, b, what, grid=None):
    """b, loaded, is as a."""
    ctx.ensure(len(a) == len(b), f"{what}: {len(b)} rules instead of {len(a)}")
    if len(a) == 0:
        return
    ctx.ensure(a.rule_type is b.rule_type, f"{what}: rules of type {b.rule_type}")
    for i, (x, y) in enumerate(zip(a.rules, b.rules)):
        vx, vy = rule_view(x), rule_view(y)
        for k in vx:
            if k == "condition":
                ctx.ensure(vx[k] == vy[k] and hash(vx[k]) == hash(vy[k]) and y.condition.impossible == x.condition.impossible, f"{what}: rule {i}: condition {vy[k]} instead of {vx[k]}")
            else:
                ctx.eq(vy[k], vx[k], f"{what}: rule {i}: {k}", tol=0 if k == "features" else 1e-12)
        ctx.ensure(type(ref.plain(x.prediction)) is str or not isinstance(ref.plain(y.prediction), str), f"{what}: rule {i}: prediction {y.prediction!r}")
        if a.train_set_size is not None and x.train_set_size is not None:
            ctx.eq(nn(y.train_set_size), nn(x.train_set_size), f"{what}: rule {i}: train set size")
    va, vb = set_view(a), set_view(b)
    ctx.eq(vb, va, f"{what}: the set")
    ctx.ensure(a == b, f"{what}: the sets are not equal")
    if all(r.prediction is not None for r in a.rules):
        grid = ROWS if grid is None else grid
        df = pd.DataFrame(grid, columns=cols_of(a, len(grid[0])))
        for xs in (np.array(grid, dtype=float), df):
            ctx.eq(ref.vals(b.predict(xs)), ref.vals(a.predict(xs)), f"{what}: prediction on new data")
        for x, y in zip(a.rules, b.rules):
            if not ref.na(x.prediction):
                ctx.eq(ref.vals(y.predict(df)), ref.vals(x.predict(df)), f"{what}: prediction of {x.condition}")
    ctx.step()


def cols_of(s, d):
    names = {int(i): n for r in s.rules for i, n in zip(r.features_indexes, r.features_names)}
    return [names.get(i, f"unused{i}") for i in range(d)]


def trip(ctx, s, what, stack=False, grid=None, as_str=False, table=True):
    """Saves and loads; checks everything; returns the loaded set."""
    from ruleskit import RuleSet

    before = content(s)
    p = ctx.files / "rules.csv"
    s.save(str(p) if as_str else p)
    ctx.ensure(content(s) == before, f"{what}: saving changed the rule set")
    first = p.read_bytes()
    s.save(p)
    ctx.ensure(p.read_bytes() == first, f"{what}: saved twice, the files differ")
    t = RuleSet(stack_activation=stack)
    t.load(str(p) if as_str else p)
    ctx.ensure(p.read_bytes() == first, f"{what}: loading changed the file")
    equivalent(ctx, s, t, what, grid)
    q = ctx.files / "again.csv"
    t.save(q)
    u = RuleSet()
    u.load(q)
    equivalent(ctx, s, u, f"{what}, a second time", grid)
    if table and len(s) and all(r.prediction is not None for r in s.rules):
        ctx.ensure(same_table(first, q.read_bytes()), lambda: f"{what}: the file of the loaded rule set differs:\n{first.decode()}\n{q.read_text()}")
    ctx.outcome("empty" if len(s) == 0 else "unfitted" if any(r.prediction is None for r in s.rules) else "fitted")
    return t


def same_table(a, b):
    """Same cells, numbers compared as numbers (5 and 5.0 are the same prediction)."""
    import csv
    import io

    ta, tb = (list(csv.reader(io.StringIO(x.decode()))) for x in (a, b))
    if len(ta) != len(tb):
        return False

    def cell(x):
        try:
            return float(x)
        except ValueError:
            return x

    from mc.core import same

    return all(len(x) == len(y) and all(same(cell(u), cell(v), 1e-12) for u, v in zip(x, y)) for x, y in zip(ta, tb))


Y1, Y2 = [4, 1, -2, 8, 0.5, 1], [-4, 6, 1, 2]


def data(k):
    rows1 = [[0.3, 0, 1], [0, 1, 1], [0.5, 0.5, 0], [1, 2, 0.25], [0.25, 0.1, 0.1], [-1, 0, 2]]
    rows2 = [[0.3, 1, 0.3], [0, 0, 0], [0.5, -1, 1], [0.2, 0.2, 0.2]]
    if k == "reg":
        return (np.array(Y1, dtype=float), np.array(rows1, dtype=float)), (np.array(Y2, dtype=float), np.array(rows2, dtype=float))
    return (np.array(["u", "v", "v", "u", "w x", "v"]), np.array(rows1, dtype=float)), (np.array(["v", "v", "u", "w x"]), np.array(rows2, dtype=float))


def conditions(ctx, c):
    from ruleskit import RuleSet

    fs = [(i, *IV[k]) for i, k in enumerate((c["a"], c["b"])) if k is not None]
    for k in ("reg", "cls"):
        r = klass(k)(cond.build(fs))
        s = RuleSet([r])
        s.fit(*data(k)[0])
        t = trip(ctx, s, f"{fs}, {k}")
        # loaded bounds and data of other kinds
        s2 = RuleSet([klass(k)(cond.build(fs)), klass(k)(cond.build([(2, 0, 1)]))], stack_activation=True)
        s2.fit(*data(k)[0])
        s2.eval(*data(k)[1])
        trip(ctx, s2, f"{fs} and another, {k}", stack=True)
        ctx.state(str(fs), k, len(t))


POOL = ([(0, 0.1, 1)], [(1, -INF, 0.5), (0, 0, 0.5)], [(2, 0.25, INF)], [(0, 0, 1), (1, -1, 0.1), (2, 0.1, 2)])


def state_of(k, rules, st, stack=False):
    from ruleskit import RuleSet

    s = RuleSet(rules, stack_activation=stack)
    if not rules or st == "unfitted":
        return s
    d1, d2 = data(k)
    s.fit(*d1)
    if st == "evaluated":
        s.eval(*d2)
    elif st == "kept":
        s.eval(*d2, keep_new_activations=True)
    elif st == "forced":
        s.eval(*d2, force_if_not_good=True)
        s.fit(*d2)
    return s


def sets(ctx, c):
    from ruleskit import Rule, RuleSet

    k = c["cls"]
    for local, stack, sfit in ((False, False, False), (True, True, True), (False, True, False)):
        Rule.LOCAL_ACTIVATION = local
        RuleSet.STACKED_FIT = sfit
        s = state_of(k, [klass(k)(cond.build(POOL[i])) for i in c["rules"]], c["state"], stack)
        trip(ctx, s, f"rules {c['rules']} {c['state']}", stack=stack, as_str=local)
        ctx.state(c, local, stack)


def names(ctx, c):
    from ruleskit import HyperrectangleCondition as H, RuleSet

    k = c["cls"]
    ns = NAMES[c["names"]] or ["X_0", "X_1", "X_2"]
    for sort in (True, False):
        for sel in (POOL, POOL[::-1], POOL[3:], POOL[1:2]):
            rules = [klass(k)(H(features_indexes=[f[0] for f in fs], bmins=[f[1] for f in fs], bmaxs=[f[2] for f in fs], features_names=[ns[f[0]] for f in fs], sort=sort)) for fs in sel]
            s = RuleSet(rules)
            y, xs = data(k)[0]
            s.fit(y, pd.DataFrame(xs, columns=ns))
            t = trip(ctx, s, f"names {ns}", table=sort)
            if sort:
                ctx.eq([list(r.features_names) for r in t.rules], [list(r.features_names) for r in s.rules], "names")
            ctx.state(c, sort, len(sel))


def labels(ctx, c):
    from ruleskit import RuleSet

    ls = LABELS[c["labels"]]
    _, xs = data("cls")[0]
    for combo in itertools.product(range(3), repeat=3):
        if ctx.tier == "quick" and combo[0] > combo[1]:
            continue
        y = np.array([ls[combo[i % 3]] for i in range(6)])
        for sel in (POOL[:1], POOL[:3], POOL):
            s = RuleSet([klass("cls")(cond.build(fs)) for fs in sel])
            s.fit(y, xs)
            t = trip(ctx, s, f"labels {list(y)}")
            ctx.state(c, combo, len(t))


def statistics(ctx, c):
    """Statistics of all magnitudes and kinds."""
    from ruleskit import RuleSet

    _, xs = data("reg")[0]
    for scale in (0, 1, -1, 1e-12, 1e12, 1 / 3, -1e-300, 1e150):
        for nans in ((), (0,), (1, 2), (0, 1, 2, 3, 4, 5)):
            y = np.array([NAN if i in nans else v * scale for i, v in enumerate(Y1)])
            s = RuleSet([klass("reg")(cond.build(fs)) for fs in POOL])
            s.fit(y, xs)
            s.eval(y, xs)
            trip(ctx, s, f"targets {list(y)}")
            ctx.state(scale, nans)


def history(ctx, c):
    """The set and a copy saved and loaded at each 'trip' go on in the same way."""
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k = c["cls"]
    RuleSet.STACKED_FIT = len(set(c["ops"])) % 2 == 0

    def fresh():
        return state_of(k, [klass(k)(cond.build(POOL[i])) for i in (2, 0, 1)], "fitted")

    a, b = fresh(), fresh()
    extra = [klass(k)(cond.build(POOL[3])) for _ in range(2)]
    d1, d2 = data(k)
    done = []
    for op in ["trip"] + c["ops"]:
        done.append(op)
        what = f"after {done}"
        if len(a) == 0:
            break
        if op == "trip":
            b = trip(ctx, b, what)
        for s, e in ((a, extra[0]), (b, extra[1])):
            if op.startswith(("fit", "keep")):
                y, xs = d1 if op[-1] == "1" else d2
                s.fit(y, xs) if op.startswith("fit") else s.eval(y, xs, keep_new_activations=True)
            elif op == "sort":
                s.sort()
            elif op == "sort_cov":
                s.sort("coverage")
            elif op == "append" and e not in s.rules:
                s.append(e, update_activation=False)
        if op == "append":
            # a rule that was not fitted: both sets are fitted again
            a.fit(*d1), b.fit(*d1)
        if op == "slice":
            a, b = a[1:], b[1:]
            if len(a):
                a.fit(*d1), b.fit(*d1)
        if len(a):
            equivalent(ctx, a, b, what)
        ctx.state(k, done)
    ctx.outcome("history")


def merged(ctx, c):
    """Rules of two rule sets that were saved, so have the same names, put together and saved."""
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k, (m, n) = c["cls"], c["sizes"]
    for first in itertools.permutations(range(4), m):
        rest = [i for i in range(4) if i not in first]
        second = (rest + list(first))[:n]
        for reload in (False, True):
            s = RuleSet()
            for part in (first, second):
                t = state_of(k, [klass(k)(cond.build(POOL[i])) for i in part], "evaluated")
                p = ctx.files / "part.csv"
                t.save(p)
                if reload:
                    t = RuleSet()
                    t.load(p)
                for r in t:
                    s.append(r, update_activation=not reload)
            b = trip(ctx, s, f"rules {first} and {second} of two saved sets (loaded {reload})", table=False)
            ctx.ensure(len(b) == len(s) == m + n, f"rules {first} and {second} of two saved sets: {len(b)} rules loaded")
            ctx.state(k, first, second, reload)
    ctx.outcome("merged")


def many(ctx, c):
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k, n = c["cls"], c["n"]
    d = 7
    rules = []
    for i in range(n):
        rules.append(klass(k)(cond.build([(i % d, i / n - 0.5, 1 + i)] + ([((i + 3) % d, -i, i / 2 + 0.125)] if i % 3 else []))))
    xs = np.array([[((i * 7 + j * 3) % 11) / 8 for j in range(d)] for i in range(40)])
    y = np.array([((i * i) % 13) / 4 - 1 for i in range(40)]) if k == "reg" else np.array([("a", "b b", "c")[(i * i) % 3] for i in range(40)])
    s = RuleSet(rules)
    s.fit(y, xs)
    s.eval(y, xs)
    trip(ctx, s, f"{n} rules", grid=xs.tolist())
    ctx.state(k, n)


def wide(ctx, c):
    """Rules with many features."""
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k, n = c["cls"], c["n"]
    names = [f"f{(7 * j) % n}_{j}" for j in range(n)]
    rules = [klass(k)(cond.build([(j, (j % 5) / 8 - 1 - i / 3, 0.75 + j / 16 + i) for j in (range(n) if i % 2 else reversed(range(0, n, i // 2 + 1)))], names=names)) for i in range(5)]
    xs = pd.DataFrame([[((i * 7 + j * 3) % 11) / 8 - 0.25 * (i % 3 == 0) for j in range(n)] for i in range(40)], columns=names)
    y = np.array([((i * i) % 13) / 4 - 1 for i in range(40)]) if k == "reg" else np.array([("a", "b b", "c")[(i * i) % 3] for i in range(40)])
    s = RuleSet(rules)
    s.fit(y, xs)
    s.eval(y, xs)
    trip(ctx, s, f"rules of {n} features", grid=xs.values.tolist())
    ctx.state(k, n, "wide")


def over(ctx, c):
    """A file is loaded in a set that already has other rules: nothing of them remains."""
    from ruleskit import Rule, RuleSet

    RuleSet.STACKED_FIT = c["sfit"]
    k = c["cls"]
    d1, d2 = data(k)
    for stack, local in itertools.product((False, True), repeat=2):
        Rule.LOCAL_ACTIVATION = local
        for sel, old in (((0, 1), (2, 3)), ((2,), (0, 1, 3)), ((3, 1, 0), (0,)), ((1,), (1,))):
            a = state_of(k, [klass(k)(cond.build(POOL[i])) for i in sel], c["second"])
            b = state_of(k, [klass(k)(cond.build(POOL[i])) for i in old], c["first"], stack)
            p = ctx.files / "rules.csv"
            a.save(p)
            fresh = RuleSet(stack_activation=stack)
            fresh.load(p)
            b.load(p)
            what = f"rules {sel} ({c['second']}) loaded over {old} ({c['first']}), stacked activations kept: {stack}"
            for s in (fresh, b):
                equivalent(ctx, a, s, what)
            ctx.ensure(sorted(b.features_names) == sorted(fresh.features_names) and sorted(b.features_indexes) == sorted(fresh.features_indexes), f"{what}: features {b.features_names}")
            ctx.ensure(b.activation is None and (b.stacked_activations is None or b.stacked_activations.empty), f"{what}: activations of the former rules remain")
            for s in (a, fresh, b):
                s.fit(*d1)
            ctx.ensure([ref.observe(r)["activation"] for r in b] == [ref.observe(r)["activation"] for r in a], f"{what}, then fitted: activations")
            ctx.eq(None if b.activation is None else b.activation.tolist(), None if a.activation is None else a.activation.tolist(), f"{what}, then fitted: activation of the set")
            equivalent(ctx, a, b, f"{what}, then fitted")
            if stack:
                ctx.ensure(list(b.stacked_activations.columns) == [str(r.condition) for r in b], f"{what}, then fitted: stacked activations of {list(b.stacked_activations.columns)}")
            ctx.state(c, stack, local, sel)
    ctx.outcome("over")


def unfitted(ctx, c):
    """Rules fitted or not: the loaded set is fitted, or takes its activations from an evaluation, as the saved one."""
    from ruleskit import RuleSet

    RuleSet.STACKED_FIT = c["sfit"]
    k = c["cls"]
    d1, d2 = data(k)
    for op in ("fit", "eval", "fit_eval", "force"):
        if op in ("eval", "force") and (c["mask"] == 7 or k == "cls"):
            continue  # an evaluation on other data needs activations, which are not saved; unfitted classification rules can not be evaluated
        pair = []
        for load in (False, True):
            rules = [klass(k)(cond.build(POOL[i])) for i in (2, 0, 1)]
            for i, r in enumerate(rules):
                if c["mask"] >> i & 1:
                    r.fit(*d1)
            s = RuleSet(rules, compute_activation=False)
            if load:
                p = ctx.files / "rules.csv"
                s.save(p)
                s = RuleSet()
                s.load(p)
            if op.startswith("fit"):
                s.fit(*d1)
            if op != "fit":
                s.eval(*d2, force_if_not_good=op == "force")
            pair.append(s)
        a, b = pair
        what = f"rules fitted {c['mask']:03b}, {op}"
        ctx.ensure([ref.observe(r)["activation"] for r in b] == [ref.observe(r)["activation"] for r in a], f"{what}: activations")
        ctx.eq(None if b.activation is None else b.activation.tolist(), None if a.activation is None else a.activation.tolist(), f"{what}: activation of the set")
        equivalent(ctx, a, b, what)
        ctx.state(c, op)
    ctx.outcome("fitted or not")
