"""C21: evaluation criteria follow their definitions on the predicted points."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import ref
from mc.cond import indexes

PROPERTY = "C21"
NAN = math.nan
BOUNDS = {
    "quick": "all prediction vectors over {missing, 1, -2} and all targets over {missing, 0, 1, -4} of length 1 to 4, the 5 regression criteria, one by one (up to length 3) and stacked; all activations x labels x targets over 3 labels "
    "(numbers and strings) of length 1 to 4; the same up to length 3 times 2^-200 to 2^200 and plus or minus 2^26; all containers and indexes of the targets; rules with all activations of 4 train and 4 test observations; rule sets of 2 rules with all activations of 3 observations, "
    "weights, both fits; unknown criteria and lengths differing by 1 to 3; lengths around 2^8 and 2^16",
    "thorough": "as quick, with lengths up to 5, all functions one by one up to length 4, and rule sets with all activations of 3 rules",
}
PV, YV = (NAN, 1.0, -2.0), (NAN, 0.0, 1.0, -4.0)


def cases(tier):
    n = 4 if tier == "quick" else 5
    for k in range(1, n + 1):
        for y in itertools.product(YV, repeat=k):
            yield {"kind": "stacked", "y": [None if ref.na(v) else v for v in y]}
    for k in range(1, n):
        for y in itertools.product(YV, repeat=k):
            yield {"kind": "single", "y": [None if ref.na(v) else v for v in y]}
    for k in range(1, 4):
        for y in itertools.product(YV, repeat=k):
            yield {"kind": "magnitudes", "y": [None if ref.na(v) else v for v in y]}
    for labels in ((0, 1, 2), (-1, 3, 0.5), ("a", "bb", "nothing")):
        for k in range(1, n + 1):
            for y in itertools.product(range(3), repeat=k):
                yield {"kind": "labels", "y": [labels[i] for i in y], "labels": list(labels)}
    for cls in ("reg", "cls"):
        for bits in itertools.product((0, 1), repeat=4):
            yield {"kind": "rule", "cls": cls, "bits": list(bits)}
        for kind in ref.TARGETS:
            for sfit, stack in itertools.product((False, True), repeat=2):
                yield {"kind": "containers", "cls": cls, "target": kind, "sfit": sfit, "stack": stack}
        m = 2 if tier == "quick" else 3
        for acts in itertools.product(itertools.product((0, 1), repeat=3), repeat=m):
            yield {"kind": "ruleset", "cls": cls, "acts": [list(a) for a in acts]}
        for n in (1, 2, 5, 255, 256, 257, 65535, 65536, 65537):
            yield {"kind": "long", "cls": cls, "n": n}
    yield {"kind": "refused"}


def run_case(ctx, c):
    if "y" in c:
        c = dict(c, y=[NAN if v is None else v for v in c["y"]])
    globals()[c["kind"]](ctx, c)


def functions():
    from ruleskit.utils import rfunctions

    return rfunctions


def stacked(ctx, c):
    """All prediction vectors of the length at once, as the columns of a DataFrame."""
    f = functions()
    y = c["y"]
    preds = list(itertools.product(PV, repeat=len(y)))
    df = pd.DataFrame(np.array(preds).T, columns=[f"rule {i}" for i in range(len(preds))])
    before = df.copy()
    a = np.array(y)
    for m in ref.METHODS:
        want = [ref.criterion_regression(p, y, m) for p in preds]
        for given in (a, pd.Series(a), pd.Series(a, index=indexes(len(y))["reversed"]), pd.Series(a, index=indexes(len(y))["strings"])):
            got = f.calc_regression_criterion(df, given, criterion_method=m)
            ctx.ensure(isinstance(got, pd.Series) and list(got.index) == list(df.columns), f"{m} of stacked predictions, targets {y}: got {got}")
            ctx.step()
            for g, w, p in zip(got.values.tolist(), want, preds):
                ctx.eq(g, w, f"{m} of predictions {p}, targets {y} (stacked)")
    got = f.calc_regression_criterion(df, a)
    for g, p in zip(got.values.tolist(), preds):
        ctx.eq(g, ref.criterion_regression(p, y, "mse_norm"), f"default criterion of predictions {p}, targets {y} (stacked)")
    ctx.ensure(df.equals(before) and np.array_equal(a, np.array(y), equal_nan=True), "computing a criterion changed its arguments")
    ctx.state(y)
    ctx.outcome("known" if any(not ref.na(v) for v in y) else "no target")


FUNCTIONS = {"mse": "mse_function", "mae": "mae_function", "aae": "aae_function", "mse_norm": "mse_norm", "mae_norm": "mae_norm"}


def magnitudes(ctx, c):
    """Large and small targets and predictions, and far from zero."""
    f = functions()
    y = c["y"]
    for p in itertools.product(PV, repeat=len(y)):
        for m in ref.METHODS:
            want = ref.criterion_regression(p, y, m)
            for v in ref.SCALES:
                a, s = np.array(y, dtype=float) * v, pd.Series(p, dtype=float) * v
                for t in (a, pd.Series(a)):
                    got = {m: f.calc_regression_criterion(s, t, criterion_method=m)}
                    ref.check_scaled(ctx, got, {m: want}, v, f"predictions {p}, targets {y}")
                    ctx.step()
                got = f.calc_regression_criterion(pd.DataFrame({"a": s, "b": s}), a, criterion_method=m)
                for x in got:
                    ref.check_scaled(ctx, {m: x}, {m: want}, v, f"table of predictions {p}, targets {y}")
            for v in ref.OFFSETS:
                got = {m: f.calc_regression_criterion(pd.Series(p, dtype=float) + v, np.array(y, dtype=float) + v, criterion_method=m)}
                ref.check_shifted(ctx, got, {m: want}, v, f"predictions {p}, targets {y}")
        ctx.state(p, y)
    ctx.outcome("magnitudes")


def single(ctx, c):
    f = functions()
    y = c["y"]
    a = np.array(y)
    for p in itertools.product(PV, repeat=len(y)):
        s = pd.Series(p, dtype=float)
        for m in ref.METHODS:
            want = ref.criterion_regression(p, y, m)
            what = f"{m} of predictions {p}, targets {y}"
            got = f.calc_regression_criterion(s, a, criterion_method=m)
            ctx.ensure(np.isscalar(got), f"{what}: got {got!r}")
            ctx.eq(ref.plain(got), want, what)
            ctx.eq(ref.plain(f.calc_regression_criterion(s, pd.Series(a, index=indexes(len(y))["reversed"]), criterion_method=m.upper())), want, what + " (series)")
            ctx.eq(ref.plain(getattr(f, FUNCTIONS[m])(s, a)), want, what + " (function)")
            ctx.step(3)
        ctx.eq(ref.plain(f.calc_regression_criterion(s, a)), ref.criterion_regression(p, y), f"default criterion of predictions {p}, targets {y}")
        ctx.ensure(s.equals(pd.Series(p, dtype=float)), "the predictions were changed")
        ctx.state(p, y)
    ctx.outcome("single")


def labels(ctx, c):
    f = functions()
    y, ls = c["y"], c["labels"]
    n = len(y)
    strings = isinstance(ls[0], str)
    a = np.array(y, dtype=object if strings else None)
    ys = {"array": np.array(y), "series": pd.Series(a), "reversed": pd.Series(a, index=indexes(n)["reversed"]), "strings": pd.Series(a, index=indexes(n)["strings"])}
    acts = list(itertools.product((0, 1), repeat=n))
    for bits in acts:
        b = np.array(bits)
        for p in ls:
            want = ref.criterion_classification(ref.vector(bits, p), y)
            for k, v in ys.items():
                ctx.eq(ref.plain(f.calc_classification_criterion(b, p, v)), want, f"success rate of {p!r} activated on {bits}, targets {y} ({k})")
                ctx.step()
        # the prediction vector of a rule set: activated points may have no prediction
        if n <= 3:
            for vec in itertools.product(ls + [NAN], repeat=sum(bits)):
                it = iter(vec)
                pv = [next(it) if x else NAN for x in bits]
                got = f.calc_classification_criterion(b, pd.Series(pv, dtype=object if strings else float), ys["array"])
                ctx.eq(ref.plain(got), ref.criterion_classification(pv, y), f"success rate of the predictions {pv}, targets {y}")
                ctx.step()
        ctx.state(bits, y)
    # stacked: one column per (activation, label)
    if n == 1 or n == 3:
        cols = [(bits, p) for bits in acts for p in ls]
        df = pd.DataFrame({str(i): list(bits) for i, (bits, _) in enumerate(cols)})
        ps = pd.Series({str(i): p for i, (_, p) in enumerate(cols)})
        for k, v in ys.items():
            d = df.copy()
            if isinstance(v, pd.Series):
                d.index = v.index
            got = f.calc_classification_criterion(d, ps, v)
            ctx.step()
            for i, (bits, p) in enumerate(cols):
                ctx.eq(ref.plain(got[str(i)]), ref.criterion_classification(ref.vector(bits, p), y), f"success rate of {p!r} activated on {bits}, targets {y} (stacked, {k})")
    ctx.outcome("labels")


Y1 = {"reg": [4.0, -1.0, 2.0, 0.5], "cls": [2, 1, 1, 3]}
Y2 = {"reg": ([1.0, 1.0, 3.0, -2.0], [0.0, 0.0, 0.0, 0.0], [NAN, 1.0, 0.5, NAN], [8.0, -8.0, 8.0, 0.25]), "cls": ([1, 2, 3, 3], [1, 1, 1, 1], [2, 1, 1, 2])}


def klass(k):
    from ruleskit import ClassificationRule, RegressionRule

    return RegressionRule if k == "reg" else ClassificationRule


def crit(k, preds, y, m):
    return ref.criterion_regression(preds, y, m) if k == "reg" else ref.criterion_classification(preds, y)


def methods(k):
    return ref.METHODS if k == "reg" else ("success_rate",)


def rule(ctx, c):
    """All test activations, after fitting on the given train activation."""
    k, bits = c["cls"], c["bits"]
    fitf = ref.fit_regression if k == "reg" else ref.fit_classification
    pred = fitf(bits, Y1[k])["prediction"]
    if ref.na(pred) and k == "cls":
        ctx.outcome("never activated")
        return
    r = ref.bit_rule(klass(k), 0)
    r.fit(np.array(Y1[k]), ref.columns(bits))
    for test in itertools.product((0, 1), repeat=4):
        x = ref.columns(list(test))
        for y, m in itertools.product(Y2[k], methods(k)):
            before = ref.observe(r)
            r.eval(np.array(y), x, criterion_method=m)
            what = f"{k} rule fitted on {bits} evaluated on activation {test}, targets {y}, {m}"
            ctx.eq(ref.plain(r.criterion), crit(k, ref.vector(test, pred), y, m), what)
            now = ref.observe(r)
            for a in before:
                if a not in ("criterion", "test_set_size"):
                    ctx.ensure(repr(now[a]) == repr(before[a]), f"{what}: {a} went from {before[a]} to {now[a]}")
            # on the activation it holds
            r.eval(np.array(y), criterion_method=m.upper())
            ctx.eq(ref.plain(r.criterion), crit(k, ref.vector(bits, pred), y, m), f"{what}, on the train activation")
            ctx.step(2)
            ctx.state(k, bits, test, y, m)
    ctx.outcome("rule")


BITS = ([1, 1, 0, 0, 1, 0], [0, 1, 1, 0, 0, 0], [0, 0, 0, 0, 0, 1])
TEST = ([1, 0, 0, 1, 0, 0], [0, 0, 0, 0, 0, 0], [1, 1, 0, 1, 0, 0])
YT = {"reg": [3, 1, -2, 0, 5, 4], "cls": [1, 2, 1, 3, 1, 2]}
YE = {"reg": [2, -1, 0, 7, 1, 1], "cls": [3, 2, 2, 1, 1, 3]}


def containers(ctx, c):
    from ruleskit import RuleSet

    k = c["cls"]
    RuleSet.STACKED_FIT = c["sfit"]
    y1, y2 = ref.target(YT[k], c["target"]), ref.target(YE[k], c["target"])
    if y1 is None:
        ctx.outcome("container cannot hold the targets")
        return
    tol = 1e-5 if c["target"] == "float32" else 1e-9
    model = [(ref.fit_regression if k == "reg" else ref.fit_classification)(b, YT[k]) for b in BITS]
    preds = [m["prediction"] for m in model]
    votes = ref.predict_regression if k == "reg" else ref.predict_classification
    for m in methods(k):
        for test in (BITS, TEST):
            rules = [ref.bit_rule(klass(k), i) for i in range(3)]
            s = RuleSet(rules, stack_activation=c["stack"])
            s.fit(y1, ref.columns(*BITS))
            same = test is BITS
            keep_y = [list(y2.values) if isinstance(y2, pd.Series) else list(y2), list(getattr(y2, "index", []))]
            s.eval(y2, None if same else ref.columns(*test), criterion_method=m)
            what = f"{k}, targets as {c['target']}, {m}, evaluated on {'train' if same else 'test'} activations, stacked fit {c['sfit']}, stacked {c['stack']}"
            for r, b, p in zip(rules, test, preds):
                ctx.eq(ref.plain(r.criterion), crit(k, ref.vector(b, p), YE[k], m), f"{what}: criterion of {r.condition}", tol)
            ctx.eq(ref.plain(s.criterion), crit(k, votes(list(zip(test, preds))), YE[k], m), f"{what}: criterion of the set", tol)
            ctx.ensure([list(y2.values) if isinstance(y2, pd.Series) else list(y2), list(getattr(y2, "index", []))] == keep_y, f"{what}: the targets were changed")
            ctx.step()
            ctx.state(k, c["target"], m, same)
    ctx.outcome("container")


def ruleset(ctx, c):
    """Criterion of the whole set, after fitting on fixed data, on all activations of the rules."""
    from ruleskit import RuleSet

    k, test = c["cls"], c["acts"]
    n = len(test)
    train = [[1, 1, 0], [0, 1, 1], [1, 0, 1]][:n]
    ytr = [4.0, -1.0, 2.0] if k == "reg" else [2, 1, 1]
    yte = ([1.0, -3.0, 2.0], [0.0, 0.0, 0.0], [NAN, 1.5, 6.0]) if k == "reg" else ([1, 2, 1], [2, 2, 2], [3, 1, 2])
    preds = [(ref.fit_regression if k == "reg" else ref.fit_classification)(b, ytr)["prediction"] for b in train]
    votes = ref.predict_regression if k == "reg" else ref.predict_classification
    for sfit, stack in ((False, False), (True, True), (False, True)):
        RuleSet.STACKED_FIT = sfit
        rules = [ref.bit_rule(klass(k), i) for i in range(n)]
        s = RuleSet(rules, stack_activation=stack)
        s.fit(np.array(ytr), ref.columns(*train))
        for y, w, m in itertools.product(yte, (None, [1, 2, 4], "coverage"), methods(k) if (sfit, stack) != (False, True) else methods(k)[:2]):
            weights = w if w is None or isinstance(w, str) else pd.Series({str(r.condition): v for r, v in zip(rules, w)})
            wm = [sum(b) / 3 for b in train] if isinstance(w, str) else (w[:n] if w else None)
            usable = any(any(a) for a in test)
            what = f"{k} rules activated on {test}, targets {y}, weights {w}, {m}, stacked fit {sfit}, stacked {stack}"
            if w is not None and not usable:
                continue  # a weighted prediction without any activated rule may be refused
            before = [repr({a: v for a, v in ref.observe(r).items() if a not in ("criterion", "test_set_size")}) for r in rules]
            s.criterion = "old"
            s.calc_criterion(np.array(y), xs=ref.columns(*test), weights=weights, criterion_method=m)
            want = crit(k, votes(list(zip(test, preds)), wm), y, m)
            ctx.eq(ref.plain(s.criterion), want, f"{what}: calc_criterion")
            s.criterion = "old"
            s.eval(np.array(y), ref.columns(*test), weights=weights, criterion_method=m)
            ctx.eq(ref.plain(s.criterion), want, f"{what}: eval")
            ctx.ensure(s.test_set_size == 3, f"{what}: test set size {s.test_set_size}")
            for r, b, p in zip(rules, test, preds):
                ctx.eq(ref.plain(r.criterion), crit(k, ref.vector(b, p), y, m), f"{what}: criterion of {r.condition}")
            now = [repr({a: v for a, v in ref.observe(r).items() if a not in ("criterion", "test_set_size")}) for r in rules]
            ctx.ensure(now == before, lambda: f"{what}: evaluation changed more than the criterion: {before} to {now}")
            ctx.step(2)
            ctx.state(k, test, y, str(w), m, sfit)
    ctx.outcome("rule set")


def long(ctx, c):
    from ruleskit import RuleSet

    n, k = c["n"], c["cls"]
    bits = [[int(i % 3 != 1) for i in range(n)], [int(i % 5 in (0, 2)) for i in range(n)]]
    y = [float((i * 7) % 16 - 4) for i in range(n)] if k == "reg" else [(i * 7) % 11 % 4 for i in range(n)]
    y2 = [float((i * 5) % 8) for i in range(n)] if k == "reg" else [(i * 3) % 7 % 4 for i in range(n)]
    preds = [(ref.fit_regression if k == "reg" else ref.fit_classification)(b, y)["prediction"] for b in bits]
    votes = ref.predict_regression if k == "reg" else ref.predict_classification
    for sfit in (False, True):
        RuleSet.STACKED_FIT = sfit
        rules = [ref.bit_rule(klass(k), i) for i in range(2)]
        s = RuleSet(rules, stack_activation=sfit)
        s.fit(np.array(y), ref.columns(*bits))
        for m in methods(k):
            s.eval(np.array(y2), criterion_method=m)
            for r, b, p in zip(rules, bits, preds):
                ctx.eq(ref.plain(r.criterion), crit(k, ref.vector(b, p), y2, m), f"{n} observations, {m}: criterion of {r.condition}")
            ctx.eq(ref.plain(s.criterion), crit(k, votes(list(zip(bits, preds))), y2, m), f"{n} observations, {m}: criterion of the set")
            ctx.step()
        ctx.state(n, k, sfit)
    ctx.outcome("long")


def refused(ctx, c):
    f = functions()
    for n, d in itertools.product((2, 3, 5), (1, 2, 3, -1)):
        p, y = pd.Series([1.0] * n), np.arange(n + d, dtype=float)
        for m in ref.METHODS:
            for pv in (p, pd.DataFrame({"r": p, "s": p})):
                for t in (y, pd.Series(y)):
                    ctx.raises(lambda: f.calc_regression_criterion(pv, t, criterion_method=m), f"{m} of {n} predictions and {n + d} targets")
                    ctx.step()
        ctx.raises(lambda: f.calc_classification_criterion(np.ones(n), pd.Series([1] * (n + d)), np.arange(n)), f"{n + d} predictions for {n} activations")
    for m in ("", "mse_", "rmse", "success_rate", "mse norm", "none", "ms"):
        ctx.raises(lambda: f.calc_regression_criterion(pd.Series([1.0, 2.0]), np.array([1.0, 2.0]), criterion_method=m), f"regression criterion {m!r}", ValueError)
        r = ref.bit_rule(klass("reg"), 0)
        r.fit(np.array([1.0, 2.0]), ref.columns([1, 0]))
        ctx.raises(lambda: r.eval(np.array([1.0, 2.0]), criterion_method=m), f"rule with criterion {m!r}", ValueError)
        ctx.step(2)
    for m in ("", "mse", "success", "accuracy"):
        ctx.raises(lambda: f.calc_classification_criterion(np.ones(2), 1, np.array([1, 2]), criterion_method=m), f"classification criterion {m!r}", ValueError)
        r = ref.bit_rule(klass("cls"), 0)
        r.fit(np.array([1, 2]), ref.columns([1, 0]))
        ctx.raises(lambda: r.eval(np.array([1, 2]), criterion_method=m), f"rule with criterion {m!r}", ValueError)
        ctx.step(2)
    from ruleskit import RuleSet

    for k, sfit, n in itertools.product(("reg", "cls"), (None, False, True), (1, 2, 3, 4, 5, 6)):
        RuleSet.STACKED_FIT = bool(sfit)
        for bad in ("criterion", "length"):
            if bad == "length" and n == 3:
                continue
            rules = [ref.bit_rule(klass(k), i) for i in range(2)]
            s = rules[0] if sfit is None else RuleSet(rules)
            s.fit(np.array([1, 2, 2]), ref.columns([1, 1, 0], [0, 1, 1]))
            y = np.arange(n) if bad == "length" else np.array([1, 2, 2])
            kw = {"criterion_method": "no such criterion"} if bad == "criterion" else {}
            for t in (y, pd.Series(y)):
                for xs in (None, ref.columns([1, 0, 0], [0, 1, 1])):
                    ctx.raises(lambda: s.eval(t, xs, **kw), f"{k}, stacked fit {sfit}: evaluation with a bad {bad} ({n} targets for 3 observations)")
                    ctx.step()
    ctx.state("refused")
    ctx.outcome("refused")
