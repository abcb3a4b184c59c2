"""C25: rules and conditions of user-defined classes behave like the built-in ones."""
import itertools
import json
import math

import numpy as np
import pandas as pd

from mc import ref

PROPERTY = "C25"
NAN = math.nan
# arguments asked for by the method of a user-defined attribute
SIGS = {
    "none": "self", "y": "self, y", "xs": "self, xs", "y_xs": "self, y, xs", "xs_y": "self, xs, y", "option": "self, y, option=7", "kwargs": "self, **kwargs",
    "y_kwargs": "self, y, **kwargs", "activation": "self, y, activation=None", "all": "self, option=7, activation=None, xs=None, y=None",
}
OPS = ("fit1", "fit2", "eval1", "eval2", "keep2", "evalown", "sort", "rsort", "append", "slice", "add", "predict", "free")
DEPTH = {"quick": 3, "thorough": 4}
BOUNDS = {
    t: f"rules with 1 and 2 further attributes declared before or after the built-in ones, for all ordered pairs of {len(SIGS)} signatures, both types, "
    "limits violated by coverage, the prediction, either attribute or none, forced or not, fitted and evaluated; sets of 3 such rules, with 6 names of attributes, fitted rule by rule or stacked, with all subsets of rules "
    "found bad; all orders of all subsets of the built-in attributes declared from the train and the test set; "
    f"all histories of {DEPTH[t]} operations among {len(OPS)} on sets of rules with a user-defined condition without names, in lockstep with the same set of hyper-rectangles, in 4 modes x 3 types of activations"
    for t in DEPTH
}
ASSUMPTIONS = ["tables of rules whose condition has no names nor bounds are not specified"]
BITS = ((1, 1, 0, 0, 1), (0, 1, 1, 0, 0), (1, 0, 0, 0, 0), (0, 1, 1, 1, 1))
TEST = ((1, 0, 0, 1), (0, 1, 1, 0), (1, 1, 0, 0), (0, 0, 1, 1))
Y = {"reg": ([3, 1, 5, 7, 2], [1, 4, 2, 0]), "class": ([1, 1, 2, 0, 2], [1, 2, 2, 0])}


def cases(tier):
    for k, a in itertools.product(("reg", "class"), SIGS):
        yield {"kind": "calls", "values": k, "sigs": [a]}
        for b in SIGS:
            yield {"kind": "calls", "values": k, "sigs": [a, b]}
    for k, sfit, stack, name in itertools.product(("reg", "class"), (False, True), (False, True), ("extra", "loss", "s", "a_b", "prediction_std", "fits")):
        yield {"kind": "sets", "values": k, "sfit": sfit, "stack": stack, "name": name}
    for sfit, stack in itertools.product((False, True), repeat=2):
        for n in range(0, 5):
            yield {"kind": "moved", "sfit": sfit, "stack": stack, "n": n}
    for k in ("reg", "class"):
        yield {"kind": "table", "values": k}
        yield {"kind": "refused", "values": k}
        yield {"kind": "inherited", "values": k}
    for k, sfit, stack, dtype in itertools.product(("reg", "class"), (False, True), (False, True), ("int", "bool", "float")):
        for ops in itertools.product(OPS, repeat=DEPTH[tier] if dtype == "int" and k == "reg" else DEPTH[tier] - 1):
            yield {"kind": "conditions", "values": k, "sfit": sfit, "stack": stack, "dtype": dtype, "ops": list(ops)}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def base(k):
    import ruleskit

    return ruleskit.RegressionRule if k == "reg" else ruleskit.ClassificationRule


def method(name, sig, value):
    """A method calc_<name> with the given signature, which records its arguments and sets the attribute."""
    scope = {"value": value}
    exec(
        f"def calc_{name}({sig}):\n    given = dict(locals())\n    self = given.pop('self')\n    self._log.append(('{name}', given))\n"
        f"    self._{name} = value(self)\n", scope)
    return scope[f"calc_{name}"]


def derive(k, train=(), test=(), first=False, values=None):
    """A class of rules with further attributes: train and test are lists of (name, signature)."""
    parent = base(k)
    d = {}
    for i, (name, sig) in enumerate(list(train) + list(test)):
        d[f"calc_{name}"] = method(name, SIGS[sig], (values or {}).get(name, lambda r, i=i: 5.0 + i))
        d[name] = property(lambda self, name=name: getattr(self, f"_{name}"))
    names = [n for n, _ in train]
    d["attributes_from_train_set"] = names + parent.attributes_from_train_set if first else parent.attributes_from_train_set + names
    names = [n for n, _ in test]
    d["attributes_from_test_set"] = names + parent.attributes_from_test_set if first else parent.attributes_from_test_set + names

    def init(self, *a, **kw):
        parent.__init__(self, *a, **kw)
        self._log = []
        for n, _ in list(train) + list(test):
            setattr(self, f"_{n}", None)

    d["__init__"] = init
    return type("Derived", (parent,), d)


def limits_file(ctx, limits):
    p = ctx.files / "limits.json"
    p.write_text(json.dumps({"coverage": {"min": -1}, **limits}))
    return p


def check_call(ctx, got, name, sig, given, what):
    """The method got exactly what it asks for among what is given."""
    ctx.ensure(got[0] == name, f"{what}: calc_{got[0]} called, expected calc_{name}")
    args = got[1]
    asked = {"none": (), "y": ("y",), "xs": ("xs",), "y_xs": ("y", "xs"), "xs_y": ("xs", "y"), "option": ("y", "option"), "y_kwargs": ("y",), "activation": ("y", "activation"),
             "all": ("option", "activation", "xs", "y"), "kwargs": ()}[sig]
    for a in asked:
        want = given[a] if a in given else {"option": 7}.get(a)
        ctx.ensure(a in args and same_object(args[a], want), f"{what}: {a} = {args.get(a)!r}, expected {want!r}")
    if "kwargs" in sig:
        for a in given:
            if a not in asked:
                ctx.ensure(a in args["kwargs"] and same_object(args["kwargs"][a], given[a]), f"{what}: {a} not given to **kwargs")
    ctx.step()


def same_object(a, b):
    if b is None or isinstance(b, (int, float)):
        return a is b or a == b
    if isinstance(b, list):
        return a is not None and hasattr(a, "raw") and [int(v) for v in a.raw] == b
    return type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b))


def calls(ctx, c):
    from ruleskit import Rule

    Rule.LOCAL_ACTIVATION = False
    k, sigs = c["values"], c["sigs"]
    names = [f"extra{i}" for i in range(len(sigs))]
    attrs = list(zip(names, sigs))
    y1, y2 = (np.array(v) for v in Y[k])
    x1, x2 = ref.columns(*BITS), ref.columns(*TEST)
    for first, force, bad, option in itertools.product((False, True), (False, True), (None, "coverage", "prediction", *names), (None, 9)):
        kw = {} if option is None else {"option": option}
        limits = {None: {}, "coverage": {"coverage": {"min": 0.9}}, "prediction": {"prediction": {"min": 100}}}.get(bad, {bad: {"max": 4}})
        for phase in ("train", "test"):
            cls = derive(k, attrs if phase == "train" else (), attrs if phase == "test" else (), first)
            r = ref.bit_rule(cls, 0)
            r.set_thresholds(limits_file(ctx, limits))
            what = f"{phase} attributes {attrs} {'before' if first else 'after'} the built-in ones, limits {limits}, forced {force}, option {option}"
            kwargs = kw if phase == "train" else {}
            r.fit(y1, x1, force_if_not_good=force, **kwargs)
            # model: attributes in the order of the declaration
            good, expected, values = bad != "coverage", [], {}
            own = [a for a, _ in attrs]
            builtin = [a for a in base(k).attributes_from_train_set]

            def run(order):
                nonlocal good
                for a in order:
                    if not good and not force:
                        values[a] = NAN
                        continue
                    if a in own:
                        expected.append(a)
                        values[a] = 5.0 + own.index(a)
                    if a == bad:
                        good = False

            run((own + builtin if first else builtin + own) if phase == "train" else builtin)
            given = {"y": y1, "xs": x1, **kwargs}
            if phase == "test":
                r._log.clear()
                r.eval(y2, x2, force_if_not_good=force, **kw)
                run(own + ["criterion"] if first else ["criterion"] + own)
                given = {"y": y2, "xs": x2, "activation": list(TEST[0]), **kw}
            ctx.ensure([g[0] for g in r._log] == expected, f"{what}: computed {[g[0] for g in r._log]}, expected {expected}")
            for g in r._log:
                check_call(ctx, g, g[0], dict(attrs)[g[0]], given, f"{what}: {g[0]}")
            for a in own:
                ctx.eq(getattr(r, a), values[a], f"{what}: {a}")
            ctx.ensure(r.good is good, f"{what}: good is {r.good}")
            ctx.ensure(r.bad_because == (None if good else bad), f"{what}: bad because {r.bad_because}")
            if good or force:
                want = (ref.fit_regression if k == "reg" else ref.fit_classification)(BITS[0], Y[k][0])
                ref.check_stats(ctx, r, want, what)
                if phase == "test":
                    ctx.eq(r.criterion, criterion(k, TEST[0], want["prediction"], Y[k][1]), f"{what}: criterion")
            ctx.outcome("good" if good else "bad")
            ctx.state(k, tuple(sigs), first, force, bad, option, phase)


def criterion(k, bits, pred, y):
    return (ref.criterion_regression if k == "reg" else ref.criterion_classification)(ref.vector(bits, pred), y)


def sets(ctx, c):
    """Sets of rules with a further attribute: computed for the right rule, and rules found bad because of it are dropped."""
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k = c["values"]
    y1, y2 = (np.array(v) for v in Y[k])
    x1, x2 = ref.columns(*BITS), ref.columns(*TEST)

    class Set(RuleSet):
        STACKED_FIT = c["sfit"]
        attributes_from_train_set = {b: RuleSet.attributes_from_train_set[b] + ["density"] for b in RuleSet.attributes_from_train_set}
        attributes_from_test_set = {b: RuleSet.attributes_from_test_set[b] + ["rank"] for b in RuleSet.attributes_from_test_set}
        seen = ()

        def calc_anys(self, y, predictions=None, option=0):
            self.seen = tuple(self.seen) + (("extra", len(y), option),)
            return pd.Series({str(r.condition): 10.0 * r.features_indexes[0] + option for r in self})

        def calc_lates(self, y, stacked_activations, predictions):
            return pd.Series({str(r.condition): float(stacked_activations[str(r.condition)].sum()) for r in self})

        def calc_density(self, y, option=0):
            self.seen = tuple(self.seen) + (("density", len(y), option),)
            self.density = float(self.activation.sum()) if len(self) else 0.0

        def calc_rank(self, y):
            self.rank = len(self)

    extra = c["name"]
    setattr(Set, f"calc_{extra}s", Set.calc_anys)
    values = {extra: lambda r: 10.0 * r.features_indexes[0] + r._option, "late": lambda r: float(sum(TEST[r.features_indexes[0]]))}
    for badset, when, option in itertools.product(itertools.product((False, True), repeat=3), (extra, "late"), (0, 3)):
        cls = derive(k, [(extra, "option")], [("late", "y")], values=values)
        rules = [ref.bit_rule(cls, i) for i in range(3)]
        for r, b in zip(rules, badset):
            r._option = option
            r.set_thresholds(limits_file(ctx, {when: {"different": 10.0 * r.features_indexes[0] + option if when == extra else float(sum(TEST[r.features_indexes[0]]))}} if b else {}))
        s = Set(list(rules), stack_activation=c["stack"])
        what = f"rules bad because of {when}: {badset}, stacked fit {c['sfit']}, stacked activations {c['stack']}, option {option}"
        dropped = s.fit(y1, x1, **({"option": option} if option else {}))
        out = [r for r, b in zip(rules, badset) if b and when == extra]
        left = [r for r in rules if not any(r is o for o in out)]
        ctx.ensure([id(r) for r in dropped] == [id(r) for r in out], f"{what}: dropped {[str(r) for r in dropped]}")
        ctx.ensure([id(r) for r in s] == [id(r) for r in left], f"{what}: left {[str(r) for r in s]}")
        for i, r in enumerate(rules):
            ctx.eq(getattr(r, extra), 10.0 * i + option, f"{what}: {extra} of rule {i}")
            want = (ref.fit_regression if k == "reg" else ref.fit_classification)(BITS[i], Y[k][0])
            ref.check_stats(ctx, r, want, f"{what}: rule {i}")
        if left:
            ctx.eq(s.density, float(sum(any(v) for v in zip(*[BITS[r.features_indexes[0]] for r in left]))), f"{what}: density of the set")
            ctx.ensure(s.train_set_size == len(y1), f"{what}: train set size {s.train_set_size}")
            calls_ = [v for v in s.seen if v[0] == "density"]
            ctx.ensure(calls_ == [("density", len(y1), option)], f"{what}: {calls_}")
            dropped = s.eval(y2, x2)
            out = [r for r, b in zip(rules, badset) if b and when == "late"]
            left = [r for r in left if not any(r is o for o in out)]
            ctx.ensure([id(r) for r in dropped] == [id(r) for r in out], f"{what}: dropped by eval {[str(r) for r in dropped]}")
            ctx.ensure([id(r) for r in s] == [id(r) for r in left], f"{what}: left after eval {[str(r) for r in s]}")
            for i, r in enumerate(rules):
                if when == "late" or not badset[i]:
                    ctx.eq(r.late, float(sum(TEST[i])), f"{what}: late of rule {i}")
                    ctx.eq(r.criterion, criterion(k, TEST[i], ref.plain(r.prediction), Y[k][1]), f"{what}: criterion of rule {i}")
            ctx.ensure(s.rank == len(left), f"{what}: rank of the set {s.rank}")
        ctx.step(2)
        ctx.outcome(f"{len(left)} left")
        ctx.state(c, badset, when, option)


def moved(ctx, c):
    """The built-in attributes, declared from the train or the test set, in any order."""
    import ruleskit
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    RuleSet.STACKED_FIT = c["sfit"]
    names = ("std", "sign", "zscore", "criterion", "train_set_size")
    y1, y2 = (np.array(v, dtype=float) for v in Y["reg"])
    x1, x2 = ref.columns(*BITS), ref.columns(*TEST)
    for train in itertools.permutations(names, c["n"]):
        rest = tuple(n.replace("train", "test") for n in names if n not in train)
        for test in itertools.permutations(rest) if len(rest) < 4 else (rest, rest[::-1]):
            for keep in (False, True):
                cls = type("Moved", (ruleskit.RegressionRule,), {"attributes_from_train_set": ["prediction", *train], "attributes_from_test_set": list(test)})
                s = RuleSet([ref.bit_rule(cls, i) for i in range(4)], stack_activation=c["stack"])
                s.fit(y1, x1)
                s.eval(y2, x2, keep_new_activations=keep)
                what = f"train {train}, test {test}, stacked fit {c['sfit']}, kept {keep}"
                for i, r in enumerate(s):
                    t, e = ref.fit_regression(BITS[i], Y["reg"][0]), ref.fit_regression(TEST[i], Y["reg"][1])
                    ctx.eq(ref.plain(r.prediction), t["prediction"], f"{what}: prediction of rule {i}")
                    ctx.eq(r.coverage, (e if keep else t)["coverage"], f"{what}: coverage of rule {i}")
                    for a in (*train, *test):
                        at = a in train
                        bits, y = (BITS[i], Y["reg"][0]) if at else (TEST[i], Y["reg"][1])
                        if a == "criterion":
                            want = ref.criterion_regression(ref.vector(bits, t["prediction"]), y)
                        elif a == "zscore":
                            want = zscore(t["prediction"], sum(bits), y)
                        elif a == "sign":
                            want = t["sign"]
                        elif a.endswith("size"):
                            want = len(y)
                        else:
                            want = (t if at else e)[a]
                        ctx.eq(ref.plain(getattr(r, a)), want, f"{what}: {a} of rule {i}")
                ctx.step(2)
                ctx.state(c, train, test, keep)
    ctx.outcome("moved")


def zscore(pred, nones, y):
    return ref.div(abs(pred - ref.mean(y)), math.sqrt(1 / nones) * ref.std(y, 0))


def table(ctx, c):
    """The table of a set has the declared columns, with the values of the rules."""
    from ruleskit import Rule, RuleSet

    k = c["values"]
    y1, y2 = (np.array(v) for v in Y[k])
    for local, sub, first in itertools.product((False, True), repeat=3):
        Rule.LOCAL_ACTIVATION = local
        cls = derive(k, [("extra", "y")], values={"extra": lambda r: 2.5 + r.features_indexes[0]})
        cls.index = ["extra"] + base(k).index if first else base(k).index + ["extra"]
        cls.COMPUTE_SUBATTRIBUTES = sub
        s = RuleSet([ref.bit_rule(cls, i) for i in range(3)])
        s.fit(y1, ref.columns(*BITS))
        s.eval(y2, ref.columns(*TEST))
        for attributes in (False, True):
            df = s.to_df(ruleset_attributes=attributes)
            what = f"index {cls.index}, attributes of the set {attributes}"
            ctx.ensure(list(df.columns) == cls.index, f"{what}: columns {list(df.columns)}")
            ctx.ensure(len(df.index) == (7 if attributes else 3), f"{what}: {len(df.index)} rows")
            for i, r in enumerate(s):
                for a in cls.index:
                    ctx.ensure(df.iloc[i][a] == str(getattr(r, a)), f"{what}: {a} of rule {i} is {df.iloc[i][a]!r}, expected {str(getattr(r, a))!r}")
                ctx.eq(float(df.iloc[i]["extra"]), 2.5 + i, f"{what}: extra of rule {i}")
            ctx.step()
        own = s.to_df(lambda index: [pd.Series({a: f"{a}{i}" for a in index}, name=f"n{i}") for i in range(3)], ruleset_attributes=False)
        ctx.ensure(own.values.tolist() == [[f"{a}{i}" for a in cls.index] for i in range(3)] and list(own.index) == ["n0", "n1", "n2"], f"own rows: {own}")
        ctx.state(k, local, sub, first)
    ctx.outcome("table")


def refused(ctx, c):
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    k = c["values"]
    y1 = np.array(Y[k][0])
    x1 = ref.columns(*BITS)
    cls = base(k)
    for sfit in (False, True):
        RuleSet.STACKED_FIT = sfit
        for phase in ("train", "test"):
            d = type("Wrong", (cls,), {f"attributes_from_{phase}_set": ["activation"]})
            r, s = ref.bit_rule(d, 0), RuleSet([ref.bit_rule(d, 0)])
            for o in (r, s):
                def run():
                    o.fit(y1, x1)
                    o.eval(y1, x1)
                ctx.raises(run, f"'activation' declared from the {phase} set", ValueError)
        r = ref.bit_rule(cls, 0)
        r.fit(y1, x1)
        for o in (r, RuleSet([r])):
            before = ref.observe(r)
            for f in (o.fit, o.eval):
                ctx.raises(lambda: f(y1, x1, method="mse"), "method given", IndexError)
            ctx.ensure(str(ref.observe(r)) == str(before), f"{ref.observe(r)}, was {before}")
        # a set of rules of a class refuses rules of another, also of its parent
        d = derive(k)
        s = RuleSet([ref.bit_rule(d, 0)])
        for other in (ref.bit_rule(cls, 1), ref.bit_rule(base("class" if k == "reg" else "reg"), 1)):
            ctx.raises(lambda: s.append(other), f"rule of class {type(other).__name__} in a set of {d.__name__}", TypeError)
            ctx.ensure(len(s) == 1 and s.rule_type is d and s.features_indexes == [0], "changed by a refused rule")
        s.append(ref.bit_rule(d, 1), update_activation=False)
        ctx.ensure(len(s) == 2 and s.rule_type is d, "rule of the class of the set not added")
        ctx.step(8)
    ctx.outcome("refused")
    ctx.state(k)


def inherited(ctx, c):
    """Limits of a class apply to the classes derived from it, unless they have their own, and never to its parents."""
    from ruleskit import Rule

    k = c["values"]
    Rule.LOCAL_ACTIVATION = False
    y1, x1 = np.array(Y[k][0]), ref.columns(*BITS)
    strict, lax = ctx.files / "strict.json", ctx.files / "lax.json"
    strict.write_text(json.dumps({"coverage": {"min": 0.9}}))
    lax.write_text(json.dumps({"coverage": {"min": 0.1}}))
    for combo in itertools.product((None, "strict", "lax"), repeat=4):
        chain = [Rule, base(k)]
        chain.append(type("Child", (chain[-1],), {}))
        chain.append(type("Grandchild", (chain[-1],), {}))
        saved = [(cl, cl.__dict__.get("THRESHOLDS", "absent")) for cl in chain]
        try:
            for cl, v in zip(chain, combo):
                if v is not None:
                    cl.SET_THRESHOLDS({"strict": strict, "lax": lax}[v])
            for depth, cl in enumerate(chain):
                if depth == 0:
                    continue
                effective = next((v for v in combo[depth::-1] if v is not None), None)
                r = ref.bit_rule(cl, 0)
                r.fit(y1, x1)
                ctx.ensure(r.good is (effective != "strict"), f"limits of Rule, {base(k).__name__}, child, grandchild: {combo}: rule of class {cl.__name__} is {'good' if r.good else 'bad'}")
                ctx.step()
        finally:
            for cl, v in saved:
                if v == "absent":
                    if "THRESHOLDS" in cl.__dict__:
                        del cl.THRESHOLDS
                else:
                    cl.THRESHOLDS = v
        ctx.state(k, combo)
    ctx.outcome("inherited")


def odd(dtype):
    from ruleskit.condition import Condition

    class Odd(Condition):
        """Met where all its features are odd."""

        def evaluate(self, xs):
            x = np.asarray(xs)
            return (x[:, self.features_indexes] % 2 == 1).all(axis=1).astype(dtype)

        def __and__(self, other):
            return Odd(sorted(set(self.features_indexes) | set(other.features_indexes)))

        def __eq__(self, other):
            return isinstance(other, Odd) and set(self.features_indexes) == set(other.features_indexes)

        __hash__ = Condition.__hash__

        def __str__(self):
            return f"odd {self.features_indexes}"

    return Odd


def conditions(ctx, c):
    """A set of rules with such conditions and the set of the same hyper-rectangles, in lockstep."""
    from ruleskit import HyperrectangleCondition, Rule, RuleSet

    Rule.LOCAL_ACTIVATION = False
    RuleSet.STACKED_FIT = c["sfit"]
    k = c["values"]
    cls, Odd = base(k), odd(c["dtype"])
    feats = ([0], [1], [0, 3])
    pair = [
        [cls(Odd(list(f))) for f in feats],
        [cls(HyperrectangleCondition(features_indexes=list(f), bmins=[1] * len(f), bmaxs=[1] * len(f))) for f in feats],
    ]
    extra = [cls(Odd([2])), cls(HyperrectangleCondition(features_indexes=[2], bmins=[1], bmaxs=[1]))]
    x1, x2 = ref.columns(*BITS), ref.columns(*TEST)
    y1, y2 = (np.array(v) for v in Y[k])
    both = [RuleSet(rs, stack_activation=c["stack"]) for rs in pair]
    for j, op in enumerate(("fit1", *c["ops"])):
        res = []
        for i in (0, 1):
            s = both[i]
            try:
                r = None
                if op[:3] == "fit":
                    r = len(s.fit(*((y1, x1) if op == "fit1" else (y2, x2))))
                elif op == "eval1":
                    r = len(s.eval(y1, x1))
                elif op == "eval2":
                    r = len(s.eval(y2, x2))
                elif op == "keep2":
                    r = len(s.eval(y2, x2, keep_new_activations=True))
                elif op == "evalown":
                    r = len(s.eval(y1 if len(y1) == s[0].length else y2))
                elif op == "sort":
                    s.sort("coverage")
                elif op == "rsort":
                    s.sort("nones", reverse=True)
                elif op == "append":
                    if not any(q.features_indexes == [2] for q in s):
                        n = s[0].length
                        extra[i].fit(*((y1, x1) if n == len(y1) else (y2, x2)))
                        s.append(extra[i])
                elif op == "slice":
                    both[i] = s = s[:2]
                elif op == "add":
                    t = s + s[:1]
                    r = (len(t), set(map(tuple, (q.features_indexes for q in t))))
                elif op == "predict":
                    r = (ref.vals(s.predict(x2)), ref.vals(s.predict(pd.DataFrame(x1, columns=[f"X_{q}" for q in range(4)]))), [int(v) for v in s.evaluate(x1).raw])
                elif op == "free":
                    s.del_stacked_activations()
                res.append(("ok", r))
            except Exception as e:
                res.append((type(e).__name__, None))
        what = f"after {['fit1', *c['ops']][:j + 1]}"
        ctx.ensure(res[0][0] == res[1][0], lambda: f"{what}: {op} gives {res[0]}, {res[1]} with hyper-rectangles")
        ctx.eq(res[0][1], res[1][1], f"{what}: result of {op} (expected: with hyper-rectangles)")
        a, b = (look(s) for s in both)
        for key in b:
            ctx.eq(a[key], b[key], f"{what}: {key} (expected: with hyper-rectangles)")
        ctx.ensure(both[0].features_names == [], f"{what}: names {both[0].features_names}")
        ctx.step()
        ctx.state(str(a))
    ctx.outcome("lockstep")


def look(s):
    st = s.stacked_activations
    out = {
        "activation": None if s.activation is None else [int(v) for v in s.activation],
        "coverage": s.ruleset_coverage, "criterion": s.criterion, "sizes": [s.train_set_size, s.test_set_size],
        "features": sorted(s.features_indexes), "count": sorted((int(str(f).replace("X_", "")), n) for f, n in s.get_features_count()),
        "stacked": None if st is None else st.values.tolist(), "order": [list(r.features_indexes) for r in s],
        "members": [r in s for r in s], "equal": s == s[::-1], "and": [str(list((s[0] & s[-1]).features_indexes)), [int(v) for v in (s[0] & s[-1]).activation]],
    }
    for a in ("coverage", "prediction", "std", "sign", "zscore", "criterion", "train_set_size", "good", "nones", "length"):
        out[f"rules: {a}"] = [ref.plain(getattr(r, a, None)) for r in s]
    out["activations"] = [ref.bits_of(r) for r in s]
    return out
