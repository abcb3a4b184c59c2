"""C28: statistics of one or many activations follow their definitions, whatever the container, and set nothing."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import ref, vec
from mc.core import same

PROPERTY = "C28"
NAN = math.nan
RVALUES = (0, 1.5, -2, NAN)
LABELS = {"ints": (0, 1, 2), "floats": (0.5, -1.0, 7.0), "strings": ("b", "a", "c"), "bools": (False, True, True)}
CONTAINERS = ("array", "column", "series", "reversed", "shifted", "strings", "frame", "frame_shifted")
SIZE = {"quick": 3, "thorough": 4}
BOUNDS = {
    t: f"all pairs of activations of 1 to {SIZE[t]} observations as two rules of a set x all targets over {{0, 1.5, -2, missing}} or 3 labels ({', '.join(LABELS)}) x {len(CONTAINERS)} containers of the targets (all of them up to 2 "
    "observations, then each in turn): predictions, deviations, signs, scores, criteria of the rules, from the set's own stacked activations and from given ones; the functions themselves on single activations and on tables of "
    f"activations; given predictions, numbers of activations and horizons; targets times 2^-200 to 2^200, plus or minus 2^26; sets of 1 to 40 rules; data of up to 70000 observations"
    for t in SIZE
}
ASSUMPTIONS = ["targets of criteria are one-dimensional arrays or series", "signs of missing predictions are unspecified"]


def cases(tier):
    i = 0
    for n in range(1, SIZE[tier] + 1):
        for cols in itertools.product(list(vec.all_bits(n)), repeat=2):
            for k in ["reg"] + list(LABELS):
                if n == SIZE[tier] and k in ("floats", "bools"):
                    continue
                i += 1
                yield {"kind": "pair", "cols": [list(b) for b in cols], "values": k, "i": i}
    for k in ["reg"] + list(LABELS):
        for n in (1, 2, 3, 9, 10, 11, 40):
            yield {"kind": "many", "values": k, "n": n}
        for n in (255, 256, 257, 65535, 65536, 70000):
            yield {"kind": "long", "values": k, "n": n}
    for n in (1, 2, 3):
        for cols in itertools.product(list(vec.all_bits(n)), repeat=2):
            if n < 3 or cols[0] > cols[1] or tier != "quick":
                yield {"kind": "magnitudes", "cols": [list(b) for b in cols]}
    yield {"kind": "scores"}
    yield {"kind": "refused"}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def target(y, kind, k):
    a = np.array(y, dtype=float) if k == "reg" else np.array(y)
    n = len(y)
    index = {"reversed": range(n - 1, -1, -1), "shifted": range(5, 5 + n), "strings": [f"r{i}" for i in range(n)], "frame_shifted": range(5, 5 + n)}.get(kind)
    if kind == "array":
        return a
    if kind == "column":
        return a.reshape(-1, 1)
    if k == "strings":
        a = a.astype(object)
    if kind.startswith("frame"):
        return pd.DataFrame(a, index=index, columns=["y"])
    return pd.Series(a, index=index)


def build(cols, k):
    """A set of rules with these activations, stacked."""
    import ruleskit

    cls = ruleskit.RegressionRule if k == "reg" else ruleskit.ClassificationRule
    rules = [ref.bit_rule(cls, i) for i in range(len(cols))]
    s = ruleskit.RuleSet(rules, stack_activation=True)
    s.calc_activation(ref.columns(*cols))
    return s


def table(cols):
    return pd.DataFrame({f"X_{i} in [1, 1]": b for i, b in enumerate(cols)})


def model(bits, y, k):
    return ref.fit_regression(bits, y) if k == "reg" else ref.fit_classification(bits, y)


def probabilities(bits, y):
    act = ref.active(bits, y)
    return {c: act.count(c) / len(act) for c in sorted(set(act))}


def plain_list(x):
    return [NAN if v is None or v is pd.NaT else ref.plain(v) for v in x]


def freeze(s):
    st = s.stacked_activations
    return ([repr(ref.observe(r)) for r in s.rules], list(st.columns), list(st.index), st.values.tolist(), s.criterion, s.train_set_size, s.test_set_size, s.stack_activation,
            None if s.activation is None else s.activation.tolist())


def frozen(y):
    return repr(y.tolist()) if isinstance(y, np.ndarray) else (y.to_csv(), repr(y.index.tolist()))


def statistics(ctx, s, cols, y, k, kind, what, given=None):
    """All statistics of the rules, for targets in this container; given: another table of activations."""
    t = target(y, kind, k)
    what = f"{what}, targets {kind}"
    before, ty = freeze(s), frozen(t)
    want = [model(b, y, k) for b in cols]
    kw = {} if given is None else {"stacked_activations": given}
    names = list((s.stacked_activations if given is None else given).columns)
    g0 = None if given is None else (given.values.tolist(), list(given.index))
    p = s.calc_predictions(t, **kw)
    ctx.ensure(list(p.index) == names, f"{what}: predictions are those of {list(p.index)}")
    ctx.eq(plain_list(p), [w["prediction"] for w in want], f"{what}: predictions")
    if k == "reg":
        d = s.calc_stds(t, **kw)
        ctx.ensure(list(d.index) == names, f"{what}: deviations are those of {list(d.index)}")
        ctx.eq(plain_list(d), [w["std"] for w in want], f"{what}: deviations")
        g = s.calc_signs(predictions=p)
        for x, w in zip(g, want):
            ctx.ensure(ref.na(w["prediction"]) or x == w["sign"], f"{what}: sign {x} of a rule predicting {w['prediction']}")
        if kind not in ("column", "frame", "frame_shifted"):
            for h in (1, 4, 250):
                nones = pd.Series({c: sum(b) for c, b in zip(names, cols)})
                z = s.calc_zscores(t, predictions=p, nones=nones, horizon=h)
                ctx.eq(plain_list(z), [ref.fit_regression(b, y, h)["zscore"] for b in cols], f"{what}: scores for horizon {h}")
                if given is None:
                    z = s.calc_zscores(t, horizon=h)
                    ctx.eq(plain_list(z), [ref.fit_regression(b, y, h)["zscore"] for b in cols], f"{what}: scores for horizon {h}, from the set")
    if kind not in ("column", "frame", "frame_shifted"):
        for m in ref.METHODS if k == "reg" else ("success_rate",):
            for pk in ({"predictions": p},) + (({},) if given is None else ()):
                q = s.calc_criterions(t, criterion_method=m, **pk, **kw)
                e = [ref.criterion_regression(ref.vector(b, w["prediction"]), y, m) if k == "reg" else ref.criterion_classification(ref.vector(b, w["prediction"]), y) for b, w in zip(cols, want)]
                ctx.eq(plain_list(q), e, f"{what}: criterion {m}")
    ctx.ensure(freeze(s) == before, f"{what}: the set or its rules were changed")
    ctx.ensure(frozen(t) == ty, f"{what}: the targets were changed")
    if given is not None:
        ctx.ensure((given.values.tolist(), list(given.index)) == g0, f"{what}: the given activations were changed")
    ctx.step()


def magnitudes(ctx, c):
    """Large and small targets, and far from zero."""
    cols = c["cols"]
    s = build(cols, "reg")
    for y in itertools.product(RVALUES, repeat=len(cols[0])):
        want = [ref.fit_regression(b, y) for b in cols]
        for check, op, values in ((ref.check_scaled, np.multiply, ref.SCALES), (ref.check_shifted, np.add, ref.OFFSETS)):
            for v in values:
                t = op(np.array(y, dtype=float), v)
                p, d, z = s.calc_predictions(t), s.calc_stds(t), s.calc_zscores(t)
                g = s.calc_signs(predictions=p)
                for i, w in enumerate(want):
                    got = {"prediction": p.iloc[i], "std": d.iloc[i], "zscore": z.iloc[i], "sign": g.iloc[i]}
                    check(ctx, got, {k: w[k] for k in got}, v, f"activation {cols[i]}, targets {y}")
                for m in ref.METHODS:
                    q = s.calc_criterions(t, predictions=p, criterion_method=m)
                    for i, (b, w) in enumerate(zip(cols, want)):
                        check(ctx, {m: q.iloc[i]}, {m: ref.criterion_regression(ref.vector(b, w["prediction"]), y, m)}, v, f"activation {b}, targets {y}")
                ctx.step(4)
        ctx.state(cols, y)
    ctx.outcome("magnitudes")


def functions(ctx, cols, y, k, kind, what):
    """The functions on one activation, and on a table of them."""
    from ruleskit.utils import rfunctions as F

    t = target(y, kind, k)
    df = table(cols)
    what = f"{what}, targets {kind}"
    if k == "reg":
        for f, a in ((F.conditional_mean, "prediction"), (F.conditional_std, "std")):
            want = [ref.fit_regression(b, y)[a] for b in cols]
            ctx.eq(plain_list(f(df, t)), want, f"{what}: {a}s")
            if kind in ("array", "series", "reversed", "shifted", "strings"):
                for b, w in zip(cols, want):
                    ctx.eq(ref.plain(f(np.array(b, dtype=np.ubyte), t)), w, f"{what}: {a} of {b}")
        if ref.known(y):
            ctx.eq(ref.plain(F.conditional_mean(None, t)), ref.mean(ref.known(y)), f"{what}: overall mean")
        return
    want = [probabilities(b, y) for b in cols]
    if any(want):
        p = F.class_probabilities(df, t)
        ctx.ensure(list(p.columns) == list(df.columns), f"{what}: probabilities are those of {list(p.columns)}")
        for c, w in zip(p.columns, want):
            got = {ref.plain(i): float(v) for i, v in p[c].items() if not ref.na(float(v)) and v != 0}
            ctx.ensure(same(got, w), f"{what}: probabilities {got}, expected {w}")
    if kind in ("array", "series", "reversed", "shifted", "strings"):
        for b, w in zip(cols, want):
            p = F.class_probabilities(np.array(b, dtype=np.ubyte), t)
            got = [(ref.plain(c), float(v)) for c, v in p]
            ctx.ensure(same([g[1] for g in got], list(w.values())) and same([g[0] for g in got], list(w)), f"{what}: probabilities of {b} are {got}, expected {w}")


def pair(ctx, c):
    cols, k = c["cols"], c["values"]
    n = len(cols[0])
    s = build(cols, k)
    other = [b[::-1] + [1] for b in cols]
    given = table(other)
    j = c["i"]
    for y in itertools.product(RVALUES if k == "reg" else LABELS[k], repeat=n):
        y = list(y)
        what = f"activations {cols}, targets {y}"
        j += 1
        for kind in CONTAINERS if n < 3 else (CONTAINERS[j % len(CONTAINERS)],):
            statistics(ctx, s, cols, y, k, kind, what)
            functions(ctx, cols, y, k, kind, what)
        if n < 3 or j % 4 == 0:
            statistics(ctx, s, other, [y[0]] + y, k, "array", f"{what}, other activations", given)
        ctx.state(cols, repr(y))
    ctx.outcome(k)


def many(ctx, c):
    n, k = c["n"], c["values"]
    m = 12
    cols = [[int((i * (r + 2) + r) % 5 < 2) for i in range(m)] for r in range(n)]
    s = build(cols, k)
    y = [((5 * i) % 7) / 2 - 1 for i in range(m)] if k == "reg" else [LABELS[k][(i * i) % 3] for i in range(m)]
    if k == "reg":
        y[3] = NAN
    for kind in CONTAINERS:
        statistics(ctx, s, cols, y, k, kind, f"{n} rules")
        functions(ctx, cols, y, k, kind, f"{n} rules")
    sub = s.stacked_activations.iloc[:, ::-1]
    if n > 1:
        statistics(ctx, s, cols[::-1], y, k, "array", f"{n} rules, activations in another order", sub)
    ctx.state("many", n, k)
    ctx.outcome("many rules")


def long(ctx, c):
    n, k = c["n"], c["values"]
    cols = [[int(i % 3 == 0) for i in range(n)], [int(i >= n - 2) for i in range(n)], [0] * n]
    y = [((5 * i) % 7) / 2 - 1 for i in range(n)] if k == "reg" else [LABELS[k][(i * i) % 3] for i in range(n)]
    s = build(cols, k)
    for kind in ("array", "shifted") if n < 1000 else ("array",):
        statistics(ctx, s, cols, y, k, kind, f"{n} observations") if n < 1000 or k != "reg" else statistics_long(ctx, s, cols, y, k, kind, f"{n} observations")
        if n < 1000:
            functions(ctx, cols, y, k, kind, f"{n} observations")
    ctx.state("long", n, k)
    ctx.outcome("long")


def statistics_long(ctx, s, cols, y, k, kind, what):
    t = target(y, kind, k)
    want = [model(b, y, k) for b in cols]
    ctx.eq(plain_list(s.calc_predictions(t)), [w["prediction"] for w in want], f"{what}: predictions")
    ctx.eq(plain_list(s.calc_stds(t)), [w["std"] for w in want], f"{what}: deviations")
    ctx.eq(plain_list(s.calc_zscores(t)), [w["zscore"] for w in want], f"{what}: scores")
    ctx.step()


def scores(ctx, c):
    """Scores from given predictions and numbers of activations."""
    s = build([[1, 0, 1], [0, 1, 1]], "reg")
    names = list(s.stacked_activations.columns)
    for y in itertools.product((0.0, 1.0, -4.0, NAN), repeat=3):
        ky = ref.known(y)
        for p, n, h in itertools.product(itertools.product((0.0, 2.5, -1.0), repeat=2), itertools.product((1, 2, 9), repeat=2), (1, 2, 5, 12, 1000)):
            z = s.calc_zscores(np.array(y), predictions=pd.Series(p, index=names), nones=pd.Series(n, index=names), horizon=h)
            want = [ref.div(abs(a - ref.mean(ky)), math.sqrt(h / b) * ref.std(ky, 0)) if ky else NAN for a, b in zip(p, n)]
            ctx.ensure(list(z.index) == names and same(plain_list(z), want), lambda: f"scores of predictions {p} with {n} activations, targets {y}, horizon {h}: {plain_list(z)}, expected {want}")
            ctx.step()
        ctx.state("scores", repr(y))
    ctx.outcome("scores")


def refused(ctx, c):
    from ruleskit import ClassificationRule, RegressionRule, RuleSet

    y = np.array([1.0, 2.0, 3.0])
    for cls in (RegressionRule, ClassificationRule):
        s = RuleSet([ref.bit_rule(cls, 0)])
        for f in ("calc_predictions", "calc_stds", "calc_criterions"):
            ctx.raises(lambda: getattr(s, f)(y), f"{f} without stacked activations")
            ctx.step()
    s = build([[1, 0, 1]], "ints")
    for f in ("calc_stds", "calc_zscores", "calc_signs"):
        ctx.raises(lambda: getattr(s, f)(y) if f != "calc_signs" else s.calc_signs(), f"{f} of classification rules")
    ctx.outcome("refused")
