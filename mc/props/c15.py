"""C15: stacked and one-by-one fitting and evaluation give the same results."""
import itertools
import json
import math

import numpy as np
import pandas as pd

from mc import cond, ref, vec

PROPERTY = "C15"
NAN = math.nan
MODES = tuple(itertools.product((False, True), repeat=2))  # (stacked fit, stacked activations kept)
RVALUES = (0, 1, -2, NAN)
CVALUES = {"ints": (0, 1, 2), "strings": ("b", "a", "c"), "floats": (0.5, -1, 7), "bools": (False, True, True)}
OPS = ("fit1", "fit2", "refit", "eval1", "eval2", "keep1", "keep2", "evalown", "append", "sort", "eval_weights")
DEPTH = {"quick": 3, "thorough": 4}
BOUNDS = {
    t: "all activations of 2 rules x all targets over {0, 1, -2, NaN} or 3 classes (integers, floats, strings, Booleans) on 3 observations"
    + ("" if t == "quick" else " and of 2 rules on 4 observations")
    + f"; all histories of {DEPTH[t]} operations among {len(OPS)} in lockstep; containers of targets and features; all subsets of bad rules among 3; 3 rules fitted or not, then the set fitted without features; criteria, "
    "horizons and weights; targets times 2^-200 to 2^200, plus or minus 2^26; up to 300 rules; in the four modes, each compared with the reference model and with each other"
    for t in DEPTH
}


def cases(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for cols in itertools.product(list(vec.all_bits(n)), repeat=2):
            for k in ["reg"] + list(CVALUES):
                if n == 3 and tier == "quick" and (k in ("floats", "bools") or cols[0] < cols[1]):
                    continue  # the other order is covered at n = 1 and 2
                yield {"kind": "small", "cols": [list(b) for b in cols], "values": k}
    for k in ["reg"] + list(CVALUES):
        for ops in itertools.product(OPS, repeat=DEPTH[tier]):
            if (k == "reg" or tier != "quick" or (k == "strings" and ops[0] == "fit1")) and ops[0].startswith(("fit", "append", "keep")):
                yield {"kind": "history", "values": k, "ops": list(ops)}
        for yk in ref.TARGETS:
            yield {"kind": "containers", "values": k, "target": yk}
        yield {"kind": "bad", "values": k}
        for states in itertools.product(("fitted", "activated", "evaluated"), repeat=3):
            yield {"kind": "partly", "values": k, "states": list(states)}
        yield {"kind": "options", "values": k}
        if k == "reg":
            for cols in itertools.product(((1, 1, 0), (0, 1, 0), (1, 1, 1), (0, 0, 0)), repeat=2):
                yield {"kind": "magnitudes", "cols": [list(b) for b in cols]}
        for n in (9, 10, 11, 100, 255, 256, 257, 300):
            yield {"kind": "many", "values": k, "n": n}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def classes(k):
    import ruleskit

    return ruleskit.RegressionRule if k == "reg" else ruleskit.ClassificationRule


def arr(y, k):
    return np.array(y, dtype=float) if k == "reg" else np.array(y)


def fit_model(bits, y, k):
    return ref.fit_regression(bits, y) if k == "reg" else ref.fit_classification(bits, y)


def safe(f):
    """A weighted prediction without any usable rule is an error or predicts nothing."""
    try:
        return ref.vals(f())
    except ValueError:
        return "nothing"


def same_vec(a, b):
    from mc.core import same

    if a == "nothing" or b == "nothing":
        o = b if a == "nothing" else a
        return o == "nothing" or all(map(ref.na, o))
    return same(a, b)


def look(s, weights=None, xs=None):
    """Everything that must not depend on the mode."""
    out = {}
    for r in s.rules:
        o = ref.observe(r)
        if ref.na(o["prediction"]):
            o["sign"] = None
        if o["criterion"] is None:
            o["criterion"] = NAN
        out[str(r.condition)] = o
    return {
        "rules": out, "order": [str(r.condition) for r in s.rules], "criterion": NAN if s.criterion is None else ref.plain(s.criterion), "train": s.train_set_size,
        "test": s.test_set_size, "coverage": s.ruleset_coverage, "activation": None if s.activation is None else [int(v) for v in s.activation],
    }


def compare(ctx, results, what):
    from mc.core import same

    m0, r0 = results[0]
    for m, r in results[1:]:
        for k in r0:
            if not (same_vec(r[k], r0[k]) if k.startswith("predict") else same(r[k], r0[k])):
                if k == "rules":
                    for name in r0[k]:
                        for a in r0[k][name]:
                            ctx.eq(r[k].get(name, {}).get(a), r0[k][name][a], f"{what}: {a} of {name} with (stacked fit, stacked activations) = {m}, against {m0}")
                ctx.fail(f"{what}: {k} is {r[k]} with (stacked fit, stacked activations) = {m}, but {r0[k]} with {m0}")


def magnitudes(ctx, c):
    """Large and small targets, and far from zero: the statistics are those of the targets, scaled, in every mode."""
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    cols = c["cols"]
    xs = ref.columns(*cols)
    for y in ((1, -2, 0.5), (0, 1, 0), (-4, NAN, 1), (3, 3, -1), (0.25, 5, 7)):
        want = [fit_model(b, list(y), "reg") for b in cols]
        for check, op, values in ((ref.check_scaled, np.multiply, ref.SCALES), (ref.check_shifted, np.add, ref.OFFSETS)):
            for v in values:
                t = op(np.array(y, dtype=float), v)
                for sfit, stack in MODES:
                    RuleSet.STACKED_FIT = sfit
                    rules = [ref.bit_rule(classes("reg"), i) for i in range(2)]
                    s = RuleSet(rules, stack_activation=stack)
                    s.fit(t, xs)
                    what = f"activations {cols}, targets {y}, {sfit, stack}"
                    for r, w in zip(rules, want):
                        check(ctx, {a: getattr(r, a) for a in w}, w, v, f"{what}: {r.condition}")
                    if op is np.multiply:
                        got = [ref.plain(x) / v for x in ref.vals(s.predict(xs))]
                        ctx.eq(got, ref.predict_regression([(b, w["prediction"]) for b, w in zip(cols, want)]), f"{what}, times {v}: prediction")
                    ctx.step(2)
        ctx.state(cols, y)
    ctx.outcome("magnitudes")


def small(ctx, c):
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k = c["values"]
    cols = c["cols"]
    n = len(cols[0])
    cls = classes(k)
    xs = ref.columns(*cols)
    test = [b[1:] + b[:1] + [1] for b in cols]
    xt = ref.columns(*test)
    for y in itertools.product(RVALUES if k == "reg" else CVALUES[k], repeat=n):
        yt = list(y[::-1]) + [y[0]]
        what = f"activations {cols}, targets {list(y)}"
        results = []
        want = [fit_model(b, list(y), k) for b in cols]
        for sfit, stack in MODES:
            RuleSet.STACKED_FIT = sfit
            rules = [ref.bit_rule(cls, i) for i in range(2)]
            s = RuleSet(rules, stack_activation=stack)
            dropped = s.fit(arr(y, k), xs)
            ctx.ensure(dropped == [], f"{what}: dropped {dropped}")
            for r, w in zip(rules, want):
                ref.check_stats(ctx, r, w, f"{what}, (stacked fit, stacked activations) = {sfit, stack}: {r.condition}")
            o = look(s)
            o["predict_own"] = safe(lambda: s.predict())
            if any(not ref.na(w["prediction"]) for w in want):
                s.eval(arr(yt, k), xt)
                o["after eval"] = look(s)
                o["predict_test"] = safe(lambda: s.predict(xt))
            results.append(((sfit, stack), o))
            ctx.step(4)
        compare(ctx, results, what)
        ctx.state(cols, y)
        ctx.outcome(k)


DATA = {
    "1": ([0, 1, 1, 0, 0, 0], [0, 0, 1, 1, 0, 0], [1, 0, 0, 0, 0, 1], [0, 1, 0, 1, 0, 1]),
    "2": ([1, 0, 0, 0], [0, 1, 1, 0], [0, 0, 0, 0], [1, 0, 1, 0]),
}
YI = {"1": [0, 1, 2, 1, 0, 2], "2": [1, 1, 0, 2]}
YR = {"1": [4, 1, -2, 8, 0.5, 1], "2": [-4, 6, 1, 2]}


def targets(k, d):
    return list(YR[d]) if k == "reg" else [CVALUES[k][v] for v in YI[d]]


def history(ctx, c):
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k = c["values"]
    logs = []
    for sfit, stack in MODES:
        RuleSet.STACKED_FIT = sfit
        rules = [ref.bit_rule(classes(k), i) for i in range(4)]
        s = RuleSet(rules[:3], stack_activation=stack)
        log = []
        data = None
        for op in c["ops"]:
            d = op[-1] if op[-1] in DATA else None
            if d:
                xs, y = ref.columns(*DATA[d]), arr(targets(k, d), k)
            unfit = any(not r._fitted for r in s.rules)
            if op.startswith("fit"):
                s.fit(y, xs)
                data = d
            elif data is None:
                continue
            elif op == "refit":
                s.fit(arr(targets(k, data), k))
            elif op.startswith("eval") and d:
                s.eval(y, xs)
            elif op.startswith("keep"):
                s.eval(y, xs, keep_new_activations=True)
                data = d
            elif op == "evalown":
                s.eval(arr(targets(k, data), k))
            elif op == "eval_weights":
                w = pd.Series({str(r.condition): 1 + i for i, r in enumerate(s.rules)})
                s.eval(arr(targets(k, "2"), k), ref.columns(*DATA["2"]), weights=w)
            elif op == "append":
                if len(s) == 4:
                    continue
                rules[3].fit(arr(targets(k, data), k), ref.columns(*DATA[data]))
                s.append(rules[3])
            elif op == "sort":
                s.sort("coverage")
            o = look(s)
            if stack:
                ctx.ensure(s.stacked_activations is not None and list(s.stacked_activations.columns) == o["order"], f"after {c['ops']}: stacked activations")
            o["predict_own"] = safe(lambda: s.predict())
            o["predict_new"] = safe(lambda: s.predict(ref.columns(*DATA["2"])))
            w = pd.Series({str(r.condition): 1 + i for i, r in enumerate(s.rules)})
            o["predict_weighted"] = safe(lambda: s.predict(ref.columns(*DATA["1"]), weights=w))
            log.append(o)
            ctx.step()
        logs.append(((sfit, stack), log))
    for i in range(len(logs[0][1])):
        compare(ctx, [(m, log[i]) for m, log in logs], f"after {i + 1} effective operations of {c['ops']}")
        ctx.state(k, c["ops"], i)
    ctx.outcome("history")


def containers(ctx, c):
    from ruleskit import Rule, RuleSet

    k = c["values"]
    y1, y2 = targets(k, "1"), targets(k, "2")
    if k == "reg":
        y1[4] = NAN if c["target"] not in ("int", "series_int") else 3
        if c["target"] in ("int", "series_int"):
            y1 = [int(2 * v) for v in y1]
    t1, t2 = ref.target(y1, c["target"]), ref.target(y2, c["target"])
    if t1 is None or t2 is None:
        return
    tol = 1e-4 if c["target"] == "float32" else 1e-9
    names = [f"X_{i}" for i in range(4)]
    kinds = [x for x, _ in cond.containers(np.array(DATA["1"]).T.tolist(), names)]
    for xk in kinds:
        x1 = dict(cond.containers(np.array(DATA["1"]).T.tolist(), names, (xk,)))[xk]
        x2 = dict(cond.containers(np.array(DATA["2"]).T.tolist(), names, (xk,)))[xk]
        before = [cond.frozen(v) for v in (x1, x2, t1, t2)]
        results = []
        for sfit, stack in MODES:
            for local in (False, True):
                Rule.LOCAL_ACTIVATION = local
                RuleSet.STACKED_FIT = sfit
                rules = [ref.bit_rule(classes(k), i) for i in range(4)]
                s = RuleSet(rules, stack_activation=stack)
                s.fit(t1, x1)
                what = f"features as {xk}, targets as {c['target']}, (stacked fit, stacked activations, files) = {sfit, stack, local}"
                for r, b in zip(rules, DATA["1"]):
                    ref.check_stats(ctx, r, fit_model(b, y1, k), f"{what}: {r.condition}", tol=tol)
                o = look(s)
                s.eval(t2, x2)
                o["after eval"] = look(s)
                p = s.predict(x2)
                ctx.ensure(list(p.index) == list(range(4)), f"{what}: the index of the prediction is {list(p.index)}")
                o["predict"] = ref.vals(p)
                if tol == 1e-9:
                    results.append(((sfit, stack, local), o))
                ctx.step(3)
        if results:
            compare(ctx, results, f"features as {xk}, targets as {c['target']}")
        ctx.ensure([cond.frozen(v) for v in (x1, x2, t1, t2)] == before, f"features as {xk}, targets as {c['target']}: data changed")
        ctx.state(k, c["target"], xk)
    ctx.outcome("containers")


def bad(ctx, c):
    """Each subset of the rules is bad, because of the coverage, of a statistic, or of the criterion."""
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k = c["values"]
    y1, y2 = arr(targets(k, "1"), k), arr(targets(k, "2"), k)
    x1, x2 = ref.columns(*DATA["1"]), ref.columns(*DATA["2"])
    attrs = ("coverage", "criterion", "train_set_size") + (("prediction", "zscore", "std") if k == "reg" else ())
    for attr in attrs:
        for badset in itertools.product((False, True), repeat=3):
            results = []
            for sfit, stack in MODES:
                RuleSet.STACKED_FIT = sfit
                rules = [ref.bit_rule(classes(k), i) for i in (0, 1, 3)]
                for r, b in zip(rules, badset):
                    p = ctx.files / f"t{int(b)}.json"
                    p.write_text(json.dumps({"coverage": {"min": 0}, attr: {"min": 1e6 if b else -1e6}}))
                    r.set_thresholds(p)
                s = RuleSet(rules, stack_activation=stack)
                o = {"dropped at fit": sorted(str(r.condition) for r in s.fit(y1, x1)), "after fit": look(s)}
                if len(s):
                    o["dropped at eval"] = sorted(str(r.condition) for r in s.eval(y2, x2))
                    o["after eval"] = look(s)
                if len(s):
                    o["predict"] = safe(lambda: s.predict(x2))
                results.append(((sfit, stack), o))
                ctx.step(3)
            compare(ctx, results, f"bad rules {badset} because of {attr}")
            d = [x for x, b in zip(("X_0", "X_1", "X_3"), badset) if b]
            got = results[0][1]["dropped at fit"] + results[0][1].get("dropped at eval", [])
            ctx.ensure([any(x in g for g in got) for x in d] == [True] * len(d) and len(got) == len(d), f"bad rules {badset} because of {attr}: dropped {got}")
            ctx.state(k, attr, badset)
    ctx.outcome("bad rules")


def partly(ctx, c):
    """Rules that have an activation, some of them fitted already: the set, fitted without features, has them all fitted."""
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k = c["values"]
    cols = DATA["1"][:3]
    xs = ref.columns(*cols)
    y = targets(k, "1")
    want = [fit_model(b, y, k) for b in cols]
    for (sfit, stack), series in itertools.product(MODES, (False, True)):
        RuleSet.STACKED_FIT = sfit
        rules = [ref.bit_rule(classes(k), i) for i in range(3)]
        for r, state in zip(rules, c["states"]):
            if state == "activated":
                r.calc_activation(xs)
            else:
                r.fit(y=arr(y, k), xs=xs)
                if state == "evaluated":
                    r.eval(y=arr(y, k))
        s = RuleSet(rules, stack_activation=stack)
        what = f"rules {c['states']}, mode {sfit, stack}"
        dropped = s.fit(pd.Series(arr(y, k)) if series else arr(y, k))
        ctx.ensure(dropped == [], f"{what}: dropped {dropped}")
        for r, w in zip(rules, want):
            ref.check_stats(ctx, r, w, f"{what}, {r.condition}")
        got = ref.vals(s.predict(xs))
        ctx.eq(got, (ref.predict_regression if k == "reg" else ref.predict_classification)([(b, w["prediction"]) for b, w in zip(cols, want)]), f"{what}: prediction")
        ctx.step(2)
        ctx.state(k, c["states"], sfit, stack)
    ctx.outcome("partly fitted")


def options(ctx, c):
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k = c["values"]
    y1, y2 = arr(targets(k, "1"), k), arr(targets(k, "2"), k)
    x1, x2 = ref.columns(*DATA["1"]), ref.columns(*DATA["2"])
    for method, horizon, wk in itertools.product(ref.METHODS if k == "reg" else ("success_rate",), (1, 30), (None, "series", "coverage", "partial", "zero")):
        results = []
        for sfit, stack in MODES:
            RuleSet.STACKED_FIT = sfit
            rules = [ref.bit_rule(classes(k), i) for i in range(4)]
            s = RuleSet(rules, stack_activation=stack)
            s.fit(y1, x1, **({"horizon": horizon} if k == "reg" else {}))
            w = {
                None: None, "series": pd.Series({str(r.condition): v for r, v in zip(rules, (2, 0.5, 1, 4))}), "coverage": "coverage",
                "partial": pd.Series({str(rules[1].condition): 1, str(rules[3].condition): 2}),
                "zero": pd.Series({str(r.condition): v for r, v in zip(rules, (0, NAN, 1, 4))}),
            }[wk]
            s.eval(y2, x2, weights=w, criterion_method=method)
            o = look(s)
            o["predict"] = safe(lambda: s.predict(x1, weights=w))
            results.append(((sfit, stack), o))
            if k == "reg":
                for r, b in zip(rules, DATA["1"]):
                    ref.check_stats(ctx, r, ref.fit_regression(b, targets(k, "1"), horizon), f"{method} {horizon} {wk} {sfit, stack}: {r.condition}")
            for r, b1, b2 in zip(rules, DATA["1"], DATA["2"]):
                pred = fit_model(b1, targets(k, "1"), k)["prediction"]
                v = ref.vector(b2, pred)
                w2 = ref.criterion_regression(v, targets(k, "2"), method) if k == "reg" else ref.criterion_classification(v, targets(k, "2"))
                ctx.eq(r.criterion, w2, f"{method} {wk} {sfit, stack}: criterion of {r.condition}")
            ctx.step(3)
        compare(ctx, results, f"criterion {method}, horizon {horizon}, weights {wk}")
        ctx.state(k, method, horizon, wk)
    ctx.outcome("options")


def many(ctx, c):
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k, n = c["values"], c["n"]
    m = 12
    cols = [[(i * (j + 3) + i // 5) % 3 == 0 for j in range(m)] for i in range(n)]
    cols = [[int(v) for v in col] for col in cols]
    y = [((5 * j) % 7) / 2 - 1 for j in range(m)] if k == "reg" else [CVALUES[k][(j * j) % 3] for j in range(m)]
    xs = ref.columns(*cols)
    results = []
    for sfit, stack in MODES:
        RuleSet.STACKED_FIT = sfit
        rules = [ref.bit_rule(classes(k), i) for i in range(n)]
        s = RuleSet(rules, stack_activation=stack)
        s.fit(arr(y, k), xs)
        for r, b in zip(rules, cols):
            ref.check_stats(ctx, r, fit_model(b, y, k), f"{n} rules, {sfit, stack}: {r.condition}")
        s.eval(arr(y, k), xs)
        o = look(s)
        o["predict"] = safe(lambda: s.predict(xs[::-1]))
        results.append(((sfit, stack), o))
        ctx.step(3)
    compare(ctx, results, f"{n} rules")
    ctx.state(k, n)
    ctx.outcome("many rules")
