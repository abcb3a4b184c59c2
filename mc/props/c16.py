"""C16: a rule set predicts the mean, or the vote, of its active rules."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import cond, ref, vec

PROPERTY = "C16"
NAN = math.nan
ROWS = {k: np.array(list(itertools.product((0, 1), repeat=k)), dtype=float) for k in range(1, 6)}
REG = (1, -2, 0, 0.5, NAN)
CLS = {"ints": (0, 1, -1, NAN), "strings": ("b", "a", "cd", NAN), "floats": (0.5, 0.25, -3, NAN), "labels": ("class one", "1", "a,b", NAN)}
WEIGHTS = (None, 0, NAN, 1, 2, 0.5)
MODES = ((False, False), (True, True))
BOUNDS = {
    "quick": "all predictions over 5 values (4 for classes of 4 kinds, missing included) of up to 3 rules (4 for classes), and all weights over {absent, 0, NaN, 1, 2, 0.5} of 3 "
    "rules, at all combinations of active rules; all orders of 3 rules and of their weights; containers; weights by attribute; predictions and weights times 2^-200 to 2^200; votes that differ by down to 2^-40; up to 600 rules; in stacked and unstacked modes",
    "thorough": "as quick, with 4 rules and 4 weights",
}
ASSUMPTIONS = [
    "weights are non-negative; when no rule is usable a weighted prediction may also be refused with ValueError (pinned by a test of the repository)",
    "the rules of a set have distinct conditions",
]


def cases(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for preds in itertools.product(range(len(REG)), repeat=n):
            yield {"kind": "values", "values": "reg", "preds": list(preds)}
        for k in CLS:
            if n == 4 and k == "labels":
                continue
            for preds in itertools.product(range(4), repeat=n):
                yield {"kind": "values", "values": k, "preds": list(preds)}
    if tier == "quick":
        for k in ("ints", "strings"):
            for preds in itertools.product(range(4), repeat=4):
                yield {"kind": "values", "values": k, "preds": list(preds), "plain": True}
    for k in ["reg"] + list(CLS):
        for p in itertools.permutations(range(3)):
            yield {"kind": "orders", "values": k, "order": list(p)}
        for m in range(2):
            yield {"kind": "containers", "values": k, "mode": m}
        yield {"kind": "attributes", "values": k}
        if k != "reg":
            yield {"kind": "near", "values": k}
        yield {"kind": "unfitted", "values": k}
        yield {"kind": "magnitudes", "values": k}
        for n in (127, 128, 129, 255, 256, 257, 300, 600):
            yield {"kind": "many", "values": k, "n": n}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def values(ctx, c):
    k = c["values"]
    vs = REG if k == "reg" else CLS[k]
    preds = [vs[i] for i in c["preds"]]
    n = len(preds)
    rows = ROWS[n]
    for sfit, stack in MODES:
        s, rules = build(ctx, k, preds, sfit, stack)
        cols = rows.T.astype(int).tolist()
        if all(map(ref.na, preds)) and k != "reg":
            pass
        before = look(s)
        verify(ctx, s.predict(rows), k, cols, preds, None, f"predictions {preds}, mode {sfit, stack}")
        if n <= 3 and not c.get("plain"):
            ws = WEIGHTS if n < 3 or k in ("reg", "strings") or ctx.tier != "quick" else (None, 0, 1, 2)
            for w in itertools.product(ws, repeat=n):
                if n == 3 and ctx.tier == "quick" and sfit and sum(x in (0, None) or ref.na(x) for x in w) == 2:
                    continue
                weighted(ctx, s, k, cols, preds, w, rules, rows, f"predictions {preds}, weights {w}, mode {sfit, stack}")
        elif n == 4 and not c.get("plain"):
            for w in itertools.product((None, NAN, 1, 2), repeat=n):
                weighted(ctx, s, k, cols, preds, w, rules, rows, f"predictions {preds}, weights {w}, mode {sfit, stack}")
        ctx.ensure(look(s) == before, f"predictions {preds}: predicting changed the rule set")
        ctx.state(k, preds, sfit)


def build(ctx, k, preds, sfit=False, stack=False, rows=1, order=None):
    """A rule set whose rules have the given predictions: rule i is activated at its own observations of the train set."""
    import ruleskit
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    RuleSet.STACKED_FIT = sfit
    n = len(preds)
    cls = ruleskit.RegressionRule if k == "reg" else ruleskit.ClassificationRule
    xs = np.zeros((n + 1, n))
    y = []
    for i, p in enumerate(preds):
        y.append(p)
        if not ref.na(p):
            xs[i, i] = 1
    filler = 0.0 if k == "reg" else next((v for v in CLS[k] if not ref.na(v)))
    y = [filler if ref.na(v) else v for v in y] + [filler]
    rules = [ref.bit_rule(cls, i) for i in range(n)]
    s = RuleSet([rules[i] for i in (order or range(n))], stack_activation=stack)
    s.fit(np.array(y), xs)
    for r, p in zip(rules, preds):
        ctx.eq(ref.plain(r.prediction), p, "prediction of the fitted rule")
    return s, rules


def look(s):
    st = s.stacked_activations
    return repr(([ref.observe(r) for r in s.rules], s.activation, None if st is None else (list(st.columns), st.values.tolist(), list(st.index)), s.criterion, s.ruleset_coverage))


def expected(k, cols, preds, w):
    f = ref.predict_regression if k == "reg" else ref.predict_classification
    return f(list(zip(cols, preds)), w)


def verify(ctx, got, k, cols, preds, w, what):
    want = expected(k, cols, preds, w)
    ctx.ensure(isinstance(got, pd.Series), f"{what}: a {type(got)}")
    ctx.ensure(list(got.index) == list(range(len(want))), f"{what}: index {list(got.index)}")
    ctx.eq(ref.vals(got), want, what)
    ctx.step()
    ctx.outcome("all missing" if all(map(ref.na, want)) else "some prediction")


def weighted(ctx, s, k, cols, preds, w, rules, rows, what):
    pairs = [(str(r.condition), x) for r, x in zip(rules, w) if x is not None]
    sr = pd.Series({a: b for a, b in pairs}, dtype=float if any(isinstance(b, float) for _, b in pairs) or not pairs else int)
    want = expected(k, cols, preds, [NAN if x is None else x for x in w])
    snap = sr.copy()
    try:
        got = s.predict(rows, weights=sr)
    except ValueError:
        usable = [p for p, x in zip(preds, w) if not ref.na(p) and x is not None and not ref.na(x) and x != 0]
        ctx.ensure(all(map(ref.na, want)), f"{what}: refused")
        ctx.outcome("refused")
        ctx.ensure(not usable, f"{what}: refused though a rule is usable")
        return
    ctx.ensure(sr.equals(snap) and list(sr.index) == list(snap.index), f"{what}: the weights were changed")
    verify(ctx, got, k, cols, preds, [NAN if x is None else x for x in w], what)


SAMPLES = {"reg": ((1, -2, 0.5), (4, 4, 0), (NAN, 3, 1))}


def orders(ctx, c):
    """The order of the rules and of the weights does not matter."""
    k = c["values"]
    v = CLS.get(k)
    samples = SAMPLES["reg"] if k == "reg" else ((v[0], v[1], v[0]), (v[2], v[1], v[0]), (v[1], v[3], v[2]))
    rows = ROWS[3]
    cols = rows.T.astype(int).tolist()
    for preds in samples:
        for sfit, stack in itertools.product((False, True), repeat=2):
            s, rules = build(ctx, k, list(preds), sfit, stack, order=c["order"])
            what = f"predictions {preds}, rules in order {c['order']}, mode {sfit, stack}"
            verify(ctx, s.predict(rows), k, cols, preds, None, what)
            for w in ((1, 2, 4), (0.5, 0.5, 0), (3, 1, 2)):
                for wo in itertools.permutations(range(3)):
                    sr = pd.Series({str(rules[i].condition): w[i] for i in wo})
                    verify(ctx, s.predict(rows, weights=sr), k, cols, preds, w, f"{what}, weights {w} in order {wo}")
                sr = pd.concat([pd.Series({"another rule": 100.0}), sr])
                verify(ctx, s.predict(rows, weights=sr), k, cols, preds, w, f"{what}, weights {w} and one of another rule")
            # the set used after sorting and appending
            t = s[:]
            t.sort("coverage", reverse=True)
            verify(ctx, t.predict(rows), k, cols, preds, None, f"{what}, sorted copy")
            ctx.state(k, preds, c["order"], sfit, stack)
    ctx.outcome("orders")


def magnitudes(ctx, c):
    """Large and small predictions and weights: only the ratios of the weights count."""
    k = c["values"]
    v = CLS.get(k)
    samples = SAMPLES["reg"] if k == "reg" else ((v[0], v[1], v[0]), (v[2], v[1], v[0]), (v[1], v[3], v[2]))
    rows = ROWS[3]
    cols = rows.T.astype(int).tolist()
    for preds, (sfit, stack) in itertools.product(samples, itertools.product((False, True), repeat=2)):
        for scale in ref.SCALES:
            p = [x if ref.na(x) else x * scale for x in preds] if k == "reg" else preds
            s, rules = build(ctx, k, list(p), sfit, stack)
            back = (lambda got: [x / scale for x in ref.vals(got)]) if k == "reg" else ref.vals
            what = f"predictions {preds}, mode {sfit, stack}"
            ctx.eq(back(s.predict(rows)), expected(k, cols, preds, None), f"{what}, predictions of numbers times {scale}")
            for w in ((1, 2, 4), (0.5, 0.5, 0), (3, 1, 2), (0, 0, 1)):
                want = expected(k, cols, preds, w)
                for ws in (1, scale, 1 / scale):
                    sr = pd.Series({str(r.condition): x * ws for r, x in zip(rules, w)})
                    ctx.eq(back(s.predict(rows, weights=sr)), want, f"{what}, predictions of numbers times {scale}, weights {w} times {ws}")
                    ctx.step()
            ctx.state(k, preds, sfit, stack, scale)
    ctx.outcome("magnitudes")


def near(ctx, c):
    """Votes that differ by little: exact sums of weights decide."""
    k = c["values"]
    v = CLS[k]
    for e in (1, 2**-4, 2**-10, 2**-20, 2**-40):
        for base in (1, 0.5, 1024):
            for preds in ((v[0], v[1]), (v[1], v[0]), (v[0], v[1], v[0]), (v[1], v[2], v[0])):
                s, rules = build(ctx, k, list(preds))
                n = len(preds)
                cols = ROWS[n].T.astype(int).tolist()
                for w in itertools.product((base, base + e, 2 * base), repeat=n):
                    weighted(ctx, s, k, cols, preds, w, rules, ROWS[n], f"predictions {preds}, weights {w}")
                ctx.state(k, e, base, preds)


def containers(ctx, c):
    from ruleskit import Rule

    k = c["values"]
    v = CLS.get(k)
    preds = [1, -2, 0.5] if k == "reg" else [v[0], v[1], v[0]]
    sfit, stack = MODES[c["mode"]]
    s, rules = build(ctx, k, preds, sfit, stack)
    w = pd.Series({str(r.condition): x for r, x in zip(rules, (1, 2, 0.5))})
    for rows in (ROWS[3].tolist(), [[1, 0, 1]], [[0, 0, 0]], [[0, 0, 0], [0, 0, 0]], ROWS[3][::-1].tolist() * 3):
        cols = np.array(rows).T.astype(int).tolist()
        for xk, xs in cond.containers(rows, ["X_0", "X_1", "X_2"]):
            for local in (False, True):
                Rule.LOCAL_ACTIVATION = local
                before = cond.frozen(xs)
                verify(ctx, s.predict(xs), k, cols, preds, None, f"{rows} as {xk}, mode {sfit, stack}")
                try:
                    got = s.predict(xs, weights=w)
                except ValueError:
                    ctx.ensure(not any(map(any, rows)), f"{rows} as {xk}, mode {sfit, stack}, weighted: refused")
                else:
                    verify(ctx, got, k, cols, preds, (1, 2, 0.5), f"{rows} as {xk}, mode {sfit, stack}, weighted")
                ctx.ensure(cond.frozen(xs) == before, f"{xk}: predicting changed the features")
            ctx.state(k, xk, len(rows), sfit)
    ctx.outcome("containers")


def attributes(ctx, c):
    """Weights given by the name of an attribute of the rules; own activations."""
    import ruleskit
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k = c["values"]
    v = CLS.get(k)
    cls = ruleskit.RegressionRule if k == "reg" else ruleskit.ClassificationRule
    train = ([1, 1, 1, 0, 0, 0, 0, 0], [0, 0, 1, 1, 1, 1, 0, 0], [1, 0, 1, 0, 1, 0, 0, 0])
    y = [4, 2, 3, 8, 1, 0, 5, 1] if k == "reg" else [v[i] for i in (0, 0, 1, 1, 1, 2, 0, 2)]
    for sfit, stack in itertools.product((False, True), repeat=2):
        RuleSet.STACKED_FIT = sfit
        rules = [ref.bit_rule(cls, i) for i in range(3)]
        s = RuleSet(rules, stack_activation=stack)
        s.fit(np.array(y), ref.columns(*train))
        s.eval(np.array(y), ref.columns(*train))
        model = [ref.fit_regression(b, y) if k == "reg" else ref.fit_classification(b, y) for b in train]
        preds = [m["prediction"] for m in model]
        crit = [ref.criterion_regression(ref.vector(b, p), y) if k == "reg" else ref.criterion_classification(ref.vector(b, p), y) for b, p in zip(train, preds)]
        wmodel = {"coverage": [m["coverage"] for m in model], "criterion": crit, "train_set_size": [8, 8, 8]}
        if k == "reg":
            wmodel["std"] = [m["std"] for m in model]
            wmodel["zscore"] = [m["zscore"] for m in model]
        cols = ROWS[3].T.astype(int).tolist()
        for a, w in wmodel.items():
            what = f"weights {a} = {w}, mode {sfit, stack}"
            verify(ctx, s.predict(ROWS[3], weights=a), k, cols, preds, w, what)
            verify(ctx, s.predict(weights=a), k, [list(b) for b in train], preds, w, f"{what}, own activations")
            ctx.state(k, a, sfit, stack)
        verify(ctx, s.predict(), k, [list(b) for b in train], preds, None, f"own activations, mode {sfit, stack}")
    ctx.outcome("attributes")


def unfitted(ctx, c):
    import ruleskit
    from ruleskit import RuleSet

    cls = ruleskit.RegressionRule if c["values"] == "reg" else ruleskit.ClassificationRule
    ctx.ensure(len(RuleSet().predict(ROWS[3])) == 0, "an empty rule set predicts something")
    ctx.ensure(len(RuleSet([]).predict()) == 0, "an empty rule set predicts something")
    # rules that have no prediction yet are ignored
    v = CLS.get(c["values"])
    preds = [1, -2] if c["values"] == "reg" else [v[0], v[1]]
    s, rules = build(ctx, c["values"], preds)
    t = RuleSet(rules + [ref.bit_rule(cls, 2)], compute_activation=False)
    verify(ctx, t.predict(ROWS[3]), c["values"], ROWS[3].T.astype(int).tolist(), preds + [NAN], None, "one rule is not fitted")
    ctx.outcome("unfitted")
    ctx.state(c)


def many(ctx, c):
    """Many rules: each count of votes up to n appears at some observation."""
    import ruleskit
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k, n = c["values"], c["n"]
    v = CLS.get(k)
    cls = ruleskit.RegressionRule if k == "reg" else ruleskit.ClassificationRule
    rows = 5
    # at row 0 all rules are active, at row 1 none, at row 2 the first 2/3, at row 3 every other, at row 4 the last 130
    cols = [[1, 0, int(i < 2 * n // 3), i % 2, int(i >= n - 130)] for i in range(n)]
    preds = [[3, -1, 0.25][i % 3 if i % 5 else 0] for i in range(n)] if k == "reg" else [v[0] if i % 3 == 0 else v[1] if i % 7 else v[2] for i in range(n)]
    train = np.eye(n)
    for sfit, stack in MODES:
        RuleSet.STACKED_FIT = sfit
        rules = [ref.bit_rule(cls, i) for i in range(n)]
        s = RuleSet(rules, stack_activation=stack)
        s.fit(np.array(preds), train)
        verify(ctx, s.predict(ref.columns(*cols)), k, cols, preds, None, f"{n} rules, mode {sfit, stack}")
        w = [1 + i % 2 for i in range(n)]
        sr = pd.Series({str(r.condition): x for r, x in zip(rules, w)})
        verify(ctx, s.predict(ref.columns(*cols), weights=sr), k, cols, preds, w, f"{n} rules, weighted, mode {sfit, stack}")
        ctx.state(k, n, sfit)
    ctx.outcome(f"{rows} rows")
