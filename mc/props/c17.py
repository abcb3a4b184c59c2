"""C17: fitting or evaluating a rule set drops exactly the bad rules."""
import itertools
import json
import math

import numpy as np
import pandas as pd

from mc import cond, ref, vec

PROPERTY = "C17"
NAN = math.nan
# activations of the rules on the train set, on the test set
TRAIN = ([0, 1, 1, 0, 0, 0, 1, 0], [0, 0, 1, 1, 0, 0, 0, 0], [1, 0, 0, 0, 0, 1, 1, 1], [0, 1, 0, 1, 0, 1, 0, 0])
TEST = ([1, 0, 0, 0, 1], [0, 1, 1, 0, 0], [1, 0, 1, 0, 0], [0, 0, 0, 1, 0])
YTRAIN, YTEST = [4, 1, -2, 8, 0.5, 1, 3, 7], [-4, 6, 1, 2, 0]
CTRAIN, CTEST = [0, 1, 1, 0, 2, 2, 1, 2], [1, 0, 2, 0, 1]
CLASSES = {"ints": (0, 1, 2), "strings": ("a", "bb", "c c")}
WHEN = ("good", "coverage", "train", "eval")
OPS = ("fit", "fit_test", "eval", "keep", "evalown", "bad0", "bad1", "bad2", "badeval1", "badeval3", "append3", "reverse", "class_bad")
DEPTH = {"quick": 3, "thorough": 4}
BOUNDS = {
    t: "for each of 3 rules (4 in some modes), good, or bad because of its coverage, of a statistic of the train set or of its criterion (all combinations), x stacked fit or not x "
    "stacked activations or not x forced or not x kept test activations or not, for regression and classification; all thresholds of the class between the values of the "
    f"rules; all histories of {DEPTH[t]} operations among {len(OPS)}"
    for t in DEPTH
}


def cases(tier):
    for k in ("reg", "ints", "strings"):
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for when in itertools.product(WHEN, repeat=n):
                for sfit, stack in itertools.product((False, True), repeat=2):
                    yield {"kind": "combos", "values": k, "when": list(when), "sfit": sfit, "stack": stack}
        for sfit, stack in itertools.product((False, True), repeat=2):
            yield {"kind": "limits", "values": k, "sfit": sfit, "stack": stack}
            for ops in itertools.product(OPS, repeat=DEPTH[tier]):
                if k == "strings" and tier == "quick":
                    continue
                if k == "ints" and tier == "quick" and sfit != stack:
                    continue
                yield {"kind": "history", "values": k, "ops": list(ops), "sfit": sfit, "stack": stack}
        for n in (2, 10, 64, 257):
            yield {"kind": "many", "values": k, "n": n}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def make(k, i):
    import ruleskit
    from ruleskit import HyperrectangleCondition as H

    cls = ruleskit.RegressionRule if k == "reg" else ruleskit.ClassificationRule
    if i == 2:  # a second feature, shared with rule 0, always satisfied
        return cls(H(features_indexes=[2, 0], bmins=[1, -1], bmaxs=[1, 1], features_names=["X_2", "X_0"]))
    return ref.bit_rule(cls, i)


def ys(k, test=False):
    if k == "reg":
        return list(YTEST if test else YTRAIN)
    return [CLASSES[k][v] for v in (CTEST if test else CTRAIN)]


def thresholds(ctx, when):
    p = ctx.files / f"{when}.json"
    if not p.exists():
        lim = {"coverage": {"min": 0}}
        if when == "coverage":
            lim["coverage"] = {"min": 0.99}
        elif when == "train":
            lim["train_set_size"] = {"max": 1}
        elif when == "eval":
            lim["criterion"] = {"max": -1}
        p.write_text(json.dumps(lim))
    return p


def verify(ctx, s, rules, acts, preds, k, what):
    """The set is as one made of these rules, with these activations and predictions."""
    from ruleskit import RuleSet

    got = list(s.rules)
    ctx.ensure(len(got) == len(rules) and all(a is b for a, b in zip(got, rules)),
               lambda: f"{what}: the rules are {[str(r.condition) for r in got]}, expected {[str(r.condition) for r in rules]}")
    ctx.ensure(len(s) == len(rules), f"{what}: {len(s)} rules")
    names = sorted({n for r in rules for n in r.features_names})
    ctx.ensure(sorted(s.features_names) == names, lambda: f"{what}: features {s.features_names}, expected {names}")
    ctx.ensure(sorted(int(i) for i in s.features_indexes) == sorted({int(i) for r in rules for i in r.features_indexes}), f"{what}: features indexes {s.features_indexes}")
    count = {}
    for r in rules:
        for n in r.features_names:
            count[n] = count.get(n, 0) + 1
    ctx.ensure(dict(s.get_features_count()) == count, f"{what}: features count {s.get_features_count()}")
    st = s.stacked_activations
    if not rules:
        ctx.ensure(s.activation is None or len(s.activation) == 0, f"{what}: no rule, but activation {s.activation}")
        ctx.ensure(st is None or st.shape[1] == 0, f"{what}: no rule, but stacked activations {st}")
        ctx.ensure(len(s.predict(ref.columns(*TEST))) == 0, f"{what}: no rule, but a prediction")
        return
    want = [int(any(v)) for v in zip(*acts)]
    for r, a in zip(rules, acts):
        ctx.ensure(ref.bits_of(r) == list(a), f"{what}: {r.condition} has activation {ref.bits_of(r)}, expected {a}")
        ctx.ensure(r.good, f"{what}: holds a bad rule {r}")
    ctx.ensure(s.activation is not None and [int(v) for v in s.activation] == want, lambda: f"{what}: activation {s.activation}, expected {want}")
    ctx.eq(s.ruleset_coverage, sum(want) / len(want), f"{what}: coverage")
    if s.stack_activation:
        ctx.ensure(st is not None, f"{what}: no stacked activations")
    if st is not None:
        ctx.ensure(list(st.columns) == [str(r.condition) for r in rules], lambda: f"{what}: stacked columns {list(st.columns)}")
        ctx.ensure(st.values.T.tolist() == [list(a) for a in acts], lambda: f"{what}: stacked activations {st.values.T.tolist()}, expected {acts}")
    for r, p in zip(rules, preds):
        ctx.eq(ref.plain(r.prediction), p, f"{what}: prediction of {r.condition}")
    f = ref.predict_regression if k == "reg" else ref.predict_classification
    cols = [TEST[index(r)] for r in rules]
    ctx.eq(ref.vals(s.predict(ref.columns(*TEST))), f(list(zip(cols, preds))), f"{what}: prediction on new data")
    ctx.eq(ref.vals(s.predict()), f(list(zip(acts, preds))), f"{what}: prediction on own activations")


def index(r):
    return max(r.features_indexes)


def dropped(ctx, got, want, what):
    ctx.ensure(isinstance(got, list) and len(got) == len(want) and {id(r) for r in got} == {id(r) for r in want},
               lambda: f"{what}: returned {[str(r.condition) for r in got]}, expected {[str(r.condition) for r in want]}")
    ctx.ensure(all(not r.good for r in got), f"{what}: returned a good rule")


def fitmodel(k, bits, y):
    return (ref.fit_regression if k == "reg" else ref.fit_classification)(bits, y)["prediction"]


def combos(ctx, c):
    from ruleskit import Rule, RuleSet

    k, when = c["values"], c["when"]
    RuleSet.STACKED_FIT = c["sfit"]
    n = len(when)
    for local, keep, force in ((False, False, False), (True, True, False), (False, True, True), (False, False, True)):
        Rule.LOCAL_ACTIVATION = local
        rules = [make(k, i) for i in range(n)]
        for r, w in zip(rules, when):
            r.set_thresholds(thresholds(ctx, w))
        s = RuleSet(list(rules), stack_activation=c["stack"])
        what = f"{when}, stacked fit {c['sfit']}, stacked activations {c['stack']}, kept {keep}, forced {force}"
        got = s.fit(np.array(ys(k)), ref.columns(*TRAIN), force_if_not_good=force)
        bad = [r for r, w in zip(rules, when) if w in ("coverage", "train")]
        dropped(ctx, got, bad, f"{what}: fit")
        left = [i for i, w in enumerate(when) if w not in ("coverage", "train")]
        preds = [fitmodel(k, TRAIN[i], ys(k)) for i in left]
        verify(ctx, s, [rules[i] for i in left], [TRAIN[i] for i in left], preds, k, f"{what}: after fit")
        ctx.ensure(s.train_set_size == len(YTRAIN) or not left, f"{what}: train set size {s.train_set_size}")
        ctx.step()
        if left:
            got = s.eval(np.array(ys(k, True)), ref.columns(*TEST), keep_new_activations=keep, force_if_not_good=force)
            dropped(ctx, got, [rules[i] for i in left if when[i] == "eval"], f"{what}: eval")
            still = [i for i in left if when[i] == "good"]
            preds = [p for i, p in zip(left, preds) if i in still]
            acts = [(TEST if keep else TRAIN)[i] for i in still]
            verify(ctx, s, [rules[i] for i in still], acts, preds, k, f"{what}: after eval")
            # again: nothing more is dropped
            if still:
                got = s.eval(np.array(ys(k, True)), ref.columns(*TEST), keep_new_activations=keep)
                dropped(ctx, got, [], f"{what}: eval again")
                verify(ctx, s, [rules[i] for i in still], acts, preds, k, f"{what}: after eval again")
                f = ref.predict_regression if k == "reg" else ref.predict_classification
                p = f(list(zip([TEST[i] for i in still], preds)))
                want = ref.criterion_regression(p, ys(k, True)) if k == "reg" else ref.criterion_classification(p, ys(k, True))
                ctx.eq(s.criterion, want, f"{what}: criterion of the set")
            ctx.step(2)
            ctx.outcome(f"{len(still)} of {n} left")
        else:
            ctx.outcome("none left after fit")
        ctx.state(c, keep, force)


def limits(ctx, c):
    """Thresholds of the class, at and around the values of the rules."""
    import ruleskit
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    RuleSet.STACKED_FIT = c["sfit"]
    k = c["values"]
    cls = ruleskit.RegressionRule if k == "reg" else ruleskit.ClassificationRule
    free = [make(k, i) for i in range(4)]
    for i, r in enumerate(free):
        r.fit(np.array(ys(k)), ref.columns(*TRAIN))
        r.eval(np.array(ys(k, True)), ref.columns(*TEST))
    attrs = ("coverage", "prediction", "std", "zscore", "criterion") if k == "reg" else ("coverage", "criterion")
    for a in attrs:
        vals = [float(getattr(r, a)) for r in free]
        for v in sorted(set(vals)):
            for lim in ("min", "max", "different"):
                eps = 1e-9 * max(1, abs(v))
                for b in (v - eps, v + eps):
                    if lim == "different":
                        b = 12345.0
                    p = ctx.files / "class.json"
                    p.write_text(json.dumps({"coverage": {"min": 0}, a: {"min": -1e9, lim: b}}))
                    cls.SET_THRESHOLDS(p)
                    good = [not ((lim == "min" and x < b) or (lim == "max" and x > b)) for x in vals]
                    rules = [make(k, i) for i in range(4)]
                    s = RuleSet(list(rules), stack_activation=c["stack"])
                    what = f"{a} {vals}, {lim} {b}"
                    got = s.fit(np.array(ys(k)), ref.columns(*TRAIN))
                    got = list(got)
                    if len(s):
                        got += s.eval(np.array(ys(k, True)), ref.columns(*TEST))
                    dropped(ctx, got, [r for r, g in zip(rules, good) if not g], what)
                    left = [i for i in range(4) if good[i]]
                    verify(ctx, s, [rules[i] for i in left], [TRAIN[i] for i in left], [fitmodel(k, TRAIN[i], ys(k)) for i in left], k, what)
                    ctx.step(2)
                    ctx.state(k, a, lim, b, c["sfit"], c["stack"])
    ctx.outcome("limits")


def history(ctx, c):
    import ruleskit
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    RuleSet.STACKED_FIT = c["sfit"]
    k = c["values"]
    cls = ruleskit.RegressionRule if k == "reg" else ruleskit.ClassificationRule
    pool = [make(k, i) for i in range(4)]
    data = {}  # rule -> "train"/"test": where its activation comes from
    pred, marks, evalmarks = {}, set(), set()
    classbad = False
    rules = pool[:3]
    for r in pool:
        r.fit(np.array(ys(k)), ref.columns(*TRAIN))
        data[id(r)], pred[id(r)] = "train", fitmodel(k, TRAIN[index(r)], ys(k))
    s = RuleSet(list(rules), stack_activation=c["stack"])
    crit = {}
    for j, op in enumerate(c["ops"]):
        what = f"after {c['ops'][:j + 1]}, stacked fit {c['sfit']}, stacked activations {c['stack']}"
        if op.startswith("badeval"):
            pool[int(op[-1])].set_thresholds(thresholds(ctx, "eval"))
            evalmarks.add(int(op[-1]))
            marks.discard(int(op[-1]))
            continue
        if op.startswith("bad"):
            pool[int(op[-1])].set_thresholds(thresholds(ctx, "train"))
            marks.add(int(op[-1]))
            evalmarks.discard(int(op[-1]))
            continue
        if op == "class_bad":
            cls.SET_THRESHOLDS(thresholds(ctx, "train"))
            classbad = True
            continue
        if op == "reverse":
            if c["stack"]:
                s.rules = rules[::-1]
            else:
                s = s[::-1]
            rules = rules[::-1]
            continue
        if op == "append3":
            if pool[3] in rules or any(data[id(r)] != data[id(pool[3])] for r in rules) or not pool[3].good:
                continue
            s.append(pool[3])
            rules = rules + [pool[3]]
            continue
        if not rules:
            continue
        own = marks | evalmarks
        bad = [r for r in rules if index(r) in marks or (classbad and index(r) not in own)]
        if op in ("fit", "fit_test"):
            test = op == "fit_test"
            got = s.fit(np.array(ys(k, test)), ref.columns(*(TEST if test else TRAIN)))
            # criteria of earlier evaluations are known as well
            bad = bad + [r for r in rules if r not in bad and index(r) in evalmarks and crit.get(id(r)) is not None and not ref.na(crit[id(r)])]
            for r in rules:
                data[id(r)] = "test" if test else "train"
                pred[id(r)] = fitmodel(k, (TEST if test else TRAIN)[index(r)], ys(k, test))
        else:
            src = {data[id(r)] for r in rules}
            if op == "evalown":
                t = src == {"test"}
                got = s.eval(np.array(ys(k, t)))
            else:
                t = True
                got = s.eval(np.array(ys(k, True)), ref.columns(*TEST), keep_new_activations=op == "keep")
                if op == "keep":
                    for r in rules:
                        data[id(r)] = "test"
            for r in rules:
                v = ref.vector((TEST if t else TRAIN)[index(r)], pred[id(r)])
                crit[id(r)] = ref.criterion_regression(v, ys(k, t)) if k == "reg" else ref.criterion_classification(v, ys(k, t))
            # the criterion of a missing prediction is not known
            bad = bad + [r for r in rules if r not in bad and index(r) in evalmarks and not ref.na(crit[id(r)])]
        dropped(ctx, got, bad, what)
        rules = [r for r in rules if r not in bad]
        verify(ctx, s, rules, [(TEST if data[id(r)] == "test" else TRAIN)[index(r)] for r in rules], [pred[id(r)] for r in rules], k, what)
        ctx.step()
        ctx.state(k, tuple(map(index, rules)), tuple(data.values()), tuple(sorted(marks)), tuple(sorted(evalmarks)), classbad, c["sfit"], c["stack"])
    ctx.outcome(f"{len(rules)} left")


def many(ctx, c):
    """n rules of which some are bad."""
    import ruleskit
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k, n = c["values"], c["n"]
    cls = ruleskit.RegressionRule if k == "reg" else ruleskit.ClassificationRule
    m = 10
    cols = [[int((i * (j + 3) + i // 5) % 3 == 0 or j == i % m) for j in range(m)] for i in range(n)]
    y = [((5 * j) % 7) / 2 - 1 for j in range(m)] if k == "reg" else [CLASSES[k][(j * j) % 3] for j in range(m)]
    for sfit, stack in itertools.product((False, True), repeat=2):
        RuleSet.STACKED_FIT = sfit
        for pattern in (lambda i: True, lambda i: False, lambda i: i % 2, lambda i: i == 0, lambda i: i == n - 1, lambda i: i != n // 2):
            rules = [ref.bit_rule(cls, i) for i in range(n)]
            for i, r in enumerate(rules):
                r.set_thresholds(thresholds(ctx, "train" if pattern(i) else "good"))
            s = RuleSet(list(rules), stack_activation=stack)
            got = s.fit(np.array(y), ref.columns(*cols))
            bad = [r for i, r in enumerate(rules) if pattern(i)]
            left = [i for i in range(n) if not pattern(i)]
            what = f"{n} rules, {len(bad)} bad, {sfit, stack}"
            dropped(ctx, got, bad, what)
            ctx.ensure([id(r) for r in s.rules] == [id(rules[i]) for i in left], f"{what}: other rules left")
            if left:
                want = [int(any(v)) for v in zip(*[cols[i] for i in left])]
                ctx.ensure([int(v) for v in s.activation] == want, f"{what}: activation")
                if stack:
                    ctx.ensure(s.stacked_activations.values.T.tolist() == [cols[i] for i in left], f"{what}: stacked activations")
            ctx.step()
            ctx.state(k, n, len(bad), sfit, stack)
    ctx.outcome("many rules")
