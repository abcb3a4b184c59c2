"""C27: an operation that fails leaves settings and data usable, and a valid operation then gives what it would have given."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import ref
from mc.core import same
from mc.props.c05 import Faults
from mc.props.c15 import look

PROPERTY = "C27"
MODES = tuple(itertools.product((False, True), repeat=2))
TRAIN = ([0, 1, 1, 0, 0, 1], [0, 0, 1, 1, 0, 0], [1, 0, 0, 0, 0, 1], [0, 1, 0, 1, 0, 1])
TEST = ([1, 0, 0, 1], [0, 1, 1, 0], [0, 0, 0, 0], [1, 0, 1, 0])
Y = {"reg": ([4.0, -2.0, 1.0, 4.0, 0.5, 3.0], [1.0, 2.0, -1.0, 0.5]), "cls": ([1, 2, 2, 1, 2, 1], [2, 2, 1, 1])}
PREFIX = ((), ("fit",), ("fit", "eval"), ("fit", "keep"), ("fit", "append"))
# operations that compute something; then those that do not change anything when they fail
COMPUTING = (
    "fit_columns", "fit_frame_columns", "fit_short_y", "fit_short_series", "fit_raising", "fit_user", "fit_disk", "eval_columns", "eval_short_y", "eval_short_series", "eval_criterion",
    "eval_criterion_series", "eval_own_criterion", "eval_own_short", "eval_raising", "eval_user", "eval_weights", "keep_columns", "keep_short_y", "keep_criterion", "keep_raising", "keep_disk",
    "keep_user", "calc_columns", "calc_raising", "calc_disk",
)
PURE = (
    "predict_columns", "predict_raising", "predict_weights", "append_type", "append_class", "append_length", "iadd_class", "iadd_length", "add_class", "sort_criterion", "assign_type", "assign_class",
    "save_path", "load_path", "evaluate_columns", "evaluate_raising", "index", "thresholds_path",
)
RECOVERIES = (("fit", "eval", "predict"), ("append", "fit", "keep", "predict"), ("fit", "own", "iadd", "own", "predict"), ("keep", "eval", "predict"), ("eval",))
BOUNDS = {
    t: f"{len(PREFIX)} starting histories x {len(COMPUTING)} computing and {len(PURE)} other failing operations, each failing at every rule (or every file, or every user method call) it can fail at, once"
    + (" or (after a fit)" if t == "quick" else ", or all pairs of them one after the other, or")
    + f" twice x {len(RECOVERIES)} following histories, for both types of rules, stacked or one-by-one fits, stacked activations kept or not, in memory or in files (in the quick tier, in files for faults of the disk, of conditions and of lengths)"
    for t in ("quick", "thorough")
}
ASSUMPTIONS = [
    "after a computing operation that failed, activations and statistics may be of either data, until the next valid fit or evaluation", "no thresholds: a rule seen as bad on wrong data remains bad",
]


def cases(tier):
    for k, (sfit, stack), local in itertools.product(("reg", "cls"), MODES, (False, True)):
        base = {"values": k, "sfit": sfit, "stack": stack, "local": local}
        for prefix in PREFIX:
            for op in COMPUTING + PURE:
                if op.endswith("_disk") if not local else tier == "quick" and not op.endswith(("_disk", "_raising", "_length")):
                    continue
                yield {**base, "prefix": list(prefix), "ops": [op]}
                if tier != "quick" or prefix == ("fit",):
                    yield {**base, "prefix": list(prefix), "ops": [op, op]}
            if tier != "quick":
                for a, b in itertools.permutations([o for o in COMPUTING + PURE if local or not o.endswith("_disk")], 2):
                    yield {**base, "prefix": list(prefix), "ops": [a, b]}


class Boom(Exception):
    pass


class Trap:
    """Raises at the n-th passage, when armed."""

    left = None

    @classmethod
    def arm(cls, n):
        cls.left = n

    @classmethod
    def hit(cls):
        if cls.left is not None:
            cls.left -= 1
            if cls.left == 0:
                cls.left = None
                raise Boom("injected")


def classes(k):
    import ruleskit
    from ruleskit import HyperrectangleCondition, RuleSet

    parent = ruleskit.RegressionRule if k == "reg" else ruleskit.ClassificationRule

    class Condition(HyperrectangleCondition):
        def evaluate(self, xs):
            Trap.hit()
            return super().evaluate(xs)

    class MyRule(parent):
        attributes_from_train_set = parent.attributes_from_train_set + ["extra"]
        attributes_from_test_set = parent.attributes_from_test_set + ["check"]
        _extra = _check = None

        def calc_extra(self, y):
            User.hit()
            self._extra = float(len(y))

        def calc_check(self, y):
            User.hit()
            self._check = float(len(y)) + 0.5

    class MySet(RuleSet):
        def calc_extras(self, y):
            for _ in self:
                User.hit()
            return pd.Series({str(r.condition): float(len(y)) for r in self})

        def calc_checks(self, y):
            for _ in self:
                User.hit()
            return pd.Series({str(r.condition): len(y) + 0.5 for r in self})

    return Condition, MyRule, MySet


class User(Trap):
    pass


class World:
    def __init__(self, ctx, c):
        self.ctx, self.k = ctx, c["values"]
        self.condition, self.rule, self.set = classes(self.k)
        self.set.STACKED_FIT = c["sfit"]
        self.s = self.set([self.make(i) for i in range(3)], stack_activation=c["stack"])
        self.appended = 0

    def make(self, i, cls=None, value=1):
        return (cls or self.rule)(self.condition(features_indexes=[i], bmins=[value], bmaxs=[value], features_names=[f"X_{i}"]))

    def do(self, op):
        s, (y1, y2) = self.s, map(np.array, Y[self.k])
        x1, x2 = ref.columns(*TRAIN), ref.columns(*TEST)
        if op == "fit":
            return s.fit(y1, x1)
        if op == "eval":
            return s.eval(y2, x2)
        if op == "keep":
            return s.eval(pd.Series(y2, index=[7, 5, 3, 1]), x2, keep_new_activations=True)
        if op == "own":
            n = len(next(iter(s)).activation)
            return s.eval(pd.Series((y1 if n == 6 else y2)[:n], index=range(9, 9 - n, -1)))
        if op == "append":
            r = self.make(3, value=self.appended % 2)
            self.appended += 1
            a = s[0].activation if len(s) else None
            if a is not None:
                n = len(a)
                r.fit((y1 if n == 6 else y2), x1 if n == 6 else x2)
            return s.append(r)
        if op == "iadd":
            n = len(s[0].activation)
            o = self.set([self.make(1, value=0), self.make(0, value=0)], stack_activation=True)
            o.fit(y1 if n == 6 else y2, x1 if n == 6 else x2)
            s += o
            return None
        if op == "predict":
            return [ref.vals(s.predict(x2)), ref.vals(s.predict(x1))]
        raise ValueError(op)

    def fail(self, op, n, wrong):
        """The failing operation; True if it raised. n: which rule, file or call fails."""
        import ruleskit

        s, (y1, y2) = self.s, map(np.array, Y[self.k])
        x1, x2 = ref.columns(*TRAIN), ref.columns(*TEST)
        what, how = op.split("_", 1) if "_" in op else (op, "")
        other = ruleskit.ClassificationRule if self.k == "reg" else ruleskit.RegressionRule
        kw = {"keep_new_activations": True} if what == "keep" else {}
        ser1, ser2 = pd.Series(y1, index=[9, 8, 7, 6, 5, 4]), pd.Series(y2, index=[11, 3, 7, 5])
        length = self.set([self.make(0, value=0)])
        length[0].calc_activation(ref.columns(*TRAIN, *TRAIN)[:3])
        big = self.set([length[0]])
        foreign = other(length[0].condition)
        few = min(n, 3) if n else 0
        f = {
            "fit_columns": lambda: s.fit(y1, x1[:, :few]),
            "fit_frame_columns": lambda: s.fit(ser1, pd.DataFrame(x1[:, :few], columns=[f"X_{i}" for i in range(few)])),
            "fit_short_y": lambda: s.fit(y1[:-1], x1), "fit_short_series": lambda: s.fit(ser1[:-2], x1), "fit_raising": lambda: s.fit(ser1, x1), "fit_user": lambda: s.fit(ser1, x1),
            "fit_disk": lambda: s.fit(ser1, x1),
            "eval_columns": lambda: s.eval(y2, x2[:, :few]), "eval_short_y": lambda: s.eval(y2[:-1], x2), "eval_short_series": lambda: s.eval(ser2[1:], x2),
            "eval_criterion": lambda: s.eval(y2, x2, method="nothing"), "eval_criterion_series": lambda: s.eval(ser2, x2, criterion_method="nothing"),
            "eval_own_criterion": lambda: s.eval(ser1 if len(s[0].activation) == 6 else ser2, criterion_method="nothing"), "eval_own_short": lambda: s.eval(ser1[:2]),
            "eval_raising": lambda: s.eval(ser2, x2), "eval_user": lambda: s.eval(ser2, x2), "eval_weights": lambda: s.eval(y2, x2, weights="nothing"),
            "keep_columns": lambda: s.eval(y2, x2[:, :few], **kw), "keep_short_y": lambda: s.eval(y2[:-1], x2, **kw), "keep_criterion": lambda: s.eval(ser2, x2, criterion_method="nothing", **kw),
            "keep_raising": lambda: s.eval(ser2, x2, **kw), "keep_disk": lambda: s.eval(y2, x2, **kw), "keep_user": lambda: s.eval(ser2, x2, **kw),
            "calc_columns": lambda: s.calc_activation(x2[:, :few]), "calc_raising": lambda: s.calc_activation(x2), "calc_disk": lambda: s.calc_activation(x2),
            "predict_columns": lambda: s.predict(x2[:, :few]), "predict_raising": lambda: s.predict(x2), "predict_weights": lambda: s.predict(x2, weights="nothing"),
            "append_type": lambda: s.append("rule"), "append_class": lambda: s.append(foreign), "append_length": lambda: s.append(length[0]),
            "iadd_class": lambda: s.__iadd__(foreign), "iadd_length": lambda: s.__iadd__(big), "add_class": lambda: s + self.set([foreign]),
            "sort_criterion": lambda: s.sort("nothing"), "assign_type": lambda: setattr(s, "rules", [s[0], "rule"]), "assign_class": lambda: setattr(s, "rules", [s[0], foreign]),
            "save_path": lambda: s.save(str(self.ctx.files / "no" / "such" / "directory" / "rules.csv")), "load_path": lambda: s.load(str(self.ctx.files / "nothing.csv")),
            "evaluate_columns": lambda: s.evaluate_self_activation(x2[:, :few]), "evaluate_raising": lambda: s.evaluate_stacked_activations(x2), "index": lambda: s[len(s) + 3],
            "thresholds_path": lambda: self.rule.SET_THRESHOLDS(str(self.ctx.files / "nothing.json")),
        }[op]
        fault = Faults(self.ctx, "full", n) if how == "disk" else None
        try:
            if how == "raising":
                Trap.arm(n + 1)
            elif how == "user":
                User.arm(n + 1)
            if fault:
                with fault:
                    f()
            else:
                f()
        except Exception:
            return True
        finally:
            Trap.left = User.left = None
        return False


def settings(w):
    import ruleskit

    names = [
        (ruleskit.Activation, ("DTYPE", "FORCE_STAT", "WILL_COMPARE", "STORE_RAW", "NCPUS")), (w.rule, ("LOCAL_ACTIVATION", "THRESHOLDS", "COMPUTE_SUBATTRIBUTES")),
        (w.set, ("CHECK_DUPLICATED", "STACKED_FIT", "all_features_indexes", "NLINES")), (w.condition, ("SORT_ACCORDING_TO",)),
    ]
    return [(c.__name__, n, str(getattr(c, n))) for c, ns in names for n in ns]


def state(w):
    s = w.s
    st = s.stacked_activations
    return {
        **look(s), "stacked": None if st is None else (list(st.columns), list(st.index), st.values.astype(int).tolist()), "names": sorted(s.features_names), "indexes": sorted(s.features_indexes),
        "user": [(r._extra, r._check) for r in s], "type": s._rule_type and s._rule_type.__name__, "keep": s.stack_activation,
    }


def train(o):
    """What comes from the train set."""
    o = dict(o, user=[u[0] for u in o["user"]], rules={k: {a: v for a, v in r.items() if a not in ("criterion", "test_set_size")} for k, r in o["rules"].items()})
    return {k: v for k, v in o.items() if k not in ("criterion", "test")}


def differ(a, b):
    return [(k, a[k], b[k]) for k in a if not same(a[k], b[k])]


def run_case(ctx, c):
    from ruleskit import Rule

    for n in (0, 1, 2):
        single = c["ops"][-1].rsplit("_", 1)[-1] not in ("columns", "raising", "user", "disk")
        if n and single:
            break
        for recovery in RECOVERIES if n in (0, 1 + len(c["prefix"])) or ctx.tier != "quick" else RECOVERIES[2 * n - 2:2 * n - 1]:
            Rule.LOCAL_ACTIVATION = c["local"]
            a, b = World(ctx, c), World(ctx, c)
            for op in c["prefix"]:
                a.do(op), b.do(op)
            raised = True
            what = f"{c['prefix']}, then {c['ops']} failing at {n}"
            for op in c["ops"]:
                before, conf = state(a), settings(a)
                if op.startswith("eval_own") and not c["prefix"]:
                    raised = False
                    break
                if not a.fail(op, n, None):
                    raised = False
                    break
                ctx.step()
                now = state(a)
                ctx.ensure(settings(a) == conf, lambda: f"{what}: settings were {conf}, and are {settings(a)}")
                ctx.ensure(now["keep"] == before["keep"], f"{what}: stack_activation became {now['keep']}")
                ctx.ensure(now["order"] == before["order"] and now["names"] == before["names"] and now["type"] == before["type"], f"{what}: rules were {before['order']}, and are {now['order']}")
                ctx.ensure(now["stacked"] is None or now["keep"], f"{what}: stacked activations are left")
                ctx.ensure(now["stacked"] is None or now["stacked"][1] == list(range(len(now["stacked"][1]))), lambda: f"{what}: index of the stacked activations is {now['stacked'][1]}")
                if op in PURE:
                    d = differ(before, now)
                    ctx.ensure(not d, lambda: f"{what}: {d[0][0]} was {d[0][1]}, and is {d[0][2]}")
                elif not op.startswith(("fit", "calc", "keep")) and c["prefix"]:
                    # an evaluation on other data: the rules keep their activations and what they learnt
                    for r, o in before["rules"].items():
                        d = [x for x in ("activation", "prediction", "coverage", "std", "zscore", "sign", "train_set_size") if not same(o[x], now["rules"][r][x])]
                        ctx.ensure(not d, lambda: f"{what}: {d[0]} of {r} was {o[d[0]]}, and is {now['rules'][r][d[0]]}")
                    ctx.eq(now["activation"], before["activation"], f"{what}: activation")
                    ctx.eq(now["coverage"], before["coverage"], f"{what}: coverage")
            if not raised:
                ctx.outcome(f"not refused: {op}")
                break
            if recovery[0] == "keep" and not c["prefix"]:
                continue
            if recovery == ("eval",):
                # a set that was not fitted takes its activations from the evaluation
                if not c["prefix"] and c["values"] == "reg":
                    a.do("eval"), b.do("eval")
                    x, y = ([v["activation"] for v in look(w.s)["rules"].values()] for w in (a, b))
                    ctx.eq(x, y, f"{what}, then an evaluation: activations of the rules")
                continue
            if recovery[0] == "append" and any(o.startswith(("fit", "calc", "keep")) for o in c["ops"]):
                continue  # activations may be of both data, and a rule can not be added then
            evaluated = all(o in PURE for o in c["ops"])
            for i, op in enumerate(recovery):
                if op == "keep" and i == 0 and not any(o in PURE or o.startswith("eval") for o in c["ops"]):
                    a.do("fit"), b.do("fit")
                ra, rb = a.do(op), b.do(op)
                here = f"{what}, then {recovery[:i + 1]}"
                ctx.ensure(same(ra, rb), lambda: f"{here}: result is {ra}, and {rb} without the failure")
                if op not in ("append",):
                    evaluated |= op in ("eval", "keep", "own")
                    d = differ(*(x if evaluated else train(x) for x in (state(b), state(a))))
                    ctx.ensure(not d, lambda: f"{here}: {d[0][0]} is {d[0][2]}, and {d[0][1]} without the failure")
                ctx.step()
            ctx.state(c, n, recovery)
            ctx.outcome("recovered")
