"""C24: settings of storage, memory and computation never change results."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import cond, env, ref, vec
from mc.core import same

PROPERTY = "C24"
NAN = math.nan
TOL = 1e-13
# to files, DTYPE, WILL_COMPARE, STORE_RAW, FORCE_STAT, COMPUTE_SUBATTRIBUTES, memory, stacked fit, stacked activations
AXES = ((False, True), ("str", "array"), (False, True), (False, True), (False, True), (False, True), ("plenty", "pairs", "none"), (False, True), (False, True))
ALL = list(itertools.product(*AXES))
STORAGE = [s for s in ALL if s[4:] == (False, False, "plenty", False, False)]
PIPELINES = (
    ("fit1", "eval2", "predict", "save"),
    ("fit1", "eval1", "sort", "append", "eval2", "predict", "save"),
    ("fit1", "keep2", "slice", "evalown", "predict", "save"),
    ("limits", "fit1", "eval2", "predict", "save"),
    ("fit1", "weights", "add", "predict", "vectors"),
    ("fit1", "fit2", "save", "load", "predict", "keep1", "save"),
)
BOUNDS = {
    t: f"{len(PIPELINES)} pipelines of up to 7 operations (fit, evaluate, predict, weights, limits, sort, append, add, slice, save, load, operations on vectors) on regression and classification rule sets, under all "
    f"{len(ALL)} combinations of 9 settings (files or memory, compressed type, integers or bit arrays, raw arrays, forced statistics, subattributes, available memory, stacked fit, stacked activations)"
    f"; all ordered pairs of the {len(STORAGE)} storage settings switched {'before each' if t == 'thorough' else 'before the second'} operation; each result compared with that of the default settings"
    for t in ("quick", "thorough")
}
D1 = ([0, 1, 1, 0, 0, 1, 1], [0, 0, 1, 1, 0, 0, 0], [1, 0, 0, 0, 0, 0, 1], [0, 1, 0, 1, 0, 1, 1])
D2 = ([1, 0, 0, 0], [0, 1, 1, 0], [0, 1, 0, 0], [1, 0, 1, 0])
DATA = {"1": D1, "2": D2}
YR = {"1": [4, 1, -2, 8, 0.5, 1, NAN], "2": [-4, 6, 1, 2]}
YC = {"1": ["a", "b", "b", "c", "a", "c", "c"], "2": ["b", "b", "a", "c"]}
DEFAULT = ALL[0]


def cases(tier):
    for k, p in itertools.product(("reg", "class"), range(len(PIPELINES))):
        for i in range(0, len(ALL), 32):
            yield {"kind": "settings", "values": k, "pipeline": p, "from": i}
        for a in range(len(STORAGE)):
            at = [1] if tier == "quick" else range(1, len(PIPELINES[p]))
            for i in at:
                yield {"kind": "switched", "values": k, "pipeline": p, "first": a, "at": i}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


class Memory(list):
    """Endless report of available memory: the first vector seems to take a large part of it."""

    def __init__(self, a, b):
        super().__init__()
        self.a, self.b, self.n = a, b, 0

    def __bool__(self):
        return True

    def pop(self, _i=0):
        self.n += 1
        return self.a if self.n % 2 else self.b


def apply(ctx, s):
    from ruleskit import Activation, Rule, RuleSet

    Rule.LOCAL_ACTIVATION = s[0]
    vec.apply_settings(s[1:4])
    Activation.FORCE_STAT = s[4]
    Rule.COMPUTE_SUBATTRIBUTES = s[5]
    Activation.NCPUS = 1
    env.memory()
    if s[6] == "pairs":
        Activation.NCPUS = 64
        env._script = Memory(10**9, 9 * 10**8)
    elif s[6] == "none":
        env._script = Memory(10**9, 10**8)
    RuleSet.STACKED_FIT = s[7]


def target(k, d):
    return pd.Series(YR[d], dtype=float) if k == "reg" else pd.Series(YC[d])


def classes(k):
    import ruleskit

    return ruleskit.RegressionRule if k == "reg" else ruleskit.ClassificationRule


def number(x):
    x = ref.plain(x)
    return NAN if x is None else x


def look(s):
    rules = []
    for r in s.rules:
        o = {a: number(getattr(r, a, None)) for a in ref.STATS}
        if ref.na(o["prediction"]):
            o.pop("sign")
        rules.append((str(r.condition), o, ref.bits_of(r), r.good, r.bad_because, len(r)))
    return {
        "rules": rules, "criterion": number(s.criterion), "sizes": (number(s.train_set_size), number(s.test_set_size)), "coverage": s.ruleset_coverage,
        "activation": None if s.activation is None else [int(v) for v in s.activation], "features": sorted(s.features_names),
    }


def run(ctx, k, pipeline, setting, then=None, at=None):
    """Everything observed along the pipeline, under `setting`, then under `then` from operation number `at`."""
    from ruleskit import Activation, RuleSet

    apply(ctx, setting)
    cls = classes(k)
    rules = [ref.bit_rule(cls, i, name=f"f{i}") for i in range(4)]
    s = RuleSet(rules[:3], stack_activation=setting[8])
    frames = {d: pd.DataFrame(ref.columns(*DATA[d]), columns=[f"f{i}" for i in range(4)]) for d in DATA}
    path = ctx.files / "saved.csv"
    log = []
    for n, op in enumerate(PIPELINES[pipeline]):
        if n == at:
            apply(ctx, then)
        d = op[-1]
        out = None
        if op.startswith("fit"):
            out = [str(r.condition) for r in s.fit(target(k, d), frames[d])]
        elif op.startswith("eval") and d in DATA:
            out = [str(r.condition) for r in s.eval(target(k, d), frames[d])]
        elif op.startswith("keep"):
            out = [str(r.condition) for r in s.eval(target(k, d), frames[d], keep_new_activations=True)]
        elif op == "evalown":
            out = [str(r.condition) for r in s.eval(target(k, "2"))]
        elif op == "limits":
            p = ctx.files / "limits.json"
            p.write_text('{"coverage": {"min": 0.25, "max": 0.4}, "criterion": {"max": 0.9}}' if k == "class" else '{"coverage": {"min": 0.25, "max": 0.5}, "prediction": {"min": 0}}')
            for r in rules:
                r.set_thresholds(p)
        elif op == "predict":
            try:
                own = ref.vals(s.predict())
            except ValueError:  # no rule has its activation: loaded from a file
                own = "nothing"
            out = [own] + [ref.vals(s.predict(frames[d])) for d in DATA] + [ref.vals(s.predict(frames[d].values)) for d in DATA]
            out += [ref.vals(r.predict(frames["2"])) for r in s.rules]
        elif op == "save":
            s.save(path)
            out = path.read_text()
        elif op == "load":
            s = RuleSet(stack_activation=(then or setting)[8])
            s.load(path)
        elif op == "sort":
            s.sort("coverage", reverse=True)
        elif op == "append":
            rules[3].fit(target(k, "1"), frames["1"])
            s.append(rules[3])
        elif op == "slice":
            s = s[::2]
        elif op == "add":
            rules[3].fit(target(k, "1"), frames["1"])
            s = s + rules[3]
        elif op == "weights":
            w = pd.Series({str(r.condition): 2.0 ** -i for i, r in enumerate(s.rules)})
            out = [ref.vals(s.predict(frames[d], weights=w)) for d in DATA] + [ref.vals(s.predict(weights="coverage"))]
        elif op == "vectors":
            a = [r._activation for r in s.rules]
            out = [x.raw.tolist() for x in (a[0] & a[1], a[0] | a[1], a[0] ^ a[1], a[0] - a[1], a[0] + a[1])]
            out += [a[i].get_correlation(a[j]) for i in range(len(a)) for j in range(len(a))]
            out += [a[i] in a[j] for i in range(len(a)) for j in range(len(a))]
            if (then or setting)[6] != "none":
                out += [f(a).raw.tolist() for f in (Activation.multi_logical_and, Activation.multi_logical_or, Activation.multi_logical_xor)]
                out += [[int(v) for v in s.evaluate(frames["2"]).raw]]
            else:
                m = env._script
                env._script = []
                out += [f(a).raw.tolist() for f in (Activation.multi_logical_and, Activation.multi_logical_or, Activation.multi_logical_xor)]
                out += [[int(v) for v in s.evaluate(frames["2"]).raw]]
                env._script = m
            out += [v for x in a for v in (x.nones, x.coverage, x.entropy, x.rel_entropy, x.ones, x.as_integer, x.as_bitarray.to01(), x.as_compressed_array.tolist(), len(x))]
        o = look(s)
        log.append((op, out, o))
        ctx.step()
        if not len(s):
            break
    env.memory()
    env._script = []
    return log


def compare(ctx, got, want, what):
    ctx.ensure(len(got) == len(want), f"{what}: {len(got)} operations, {len(want)} with the default settings")
    for (op, o1, l1), (_, o2, l2) in zip(got, want):
        if op == "save":
            ctx.ensure(same(table(o1), table(o2), TOL), lambda: f"{what}: saved file\n{o1}\nand with the default settings\n{o2}")
        else:
            ctx.eq(o1, o2, f"{what}: result of {op}", TOL)
        for k in l2:
            ctx.eq(l1[k], l2[k], f"{what}: {k} after {op}", TOL)


def table(text):
    """A saved file, with its numbers: their last digits may depend on the order of a sum."""
    out = []
    for line in text.splitlines():
        row = []
        for cell in line.split(","):
            try:
                row.append(float(cell))
            except ValueError:
                row.append(NAN if cell in ("", "None") else cell)
        out.append(row)
    return out


_want = {}


def expected(ctx, k, p):
    if (k, p) not in _want:
        _want[k, p] = run(ctx, k, p, DEFAULT)
        ctx.reset()
        # the default settings are themselves compared with the reference model
        for op, out, o in _want[k, p]:
            if op == "fit1":
                for name, stats, bits, good, _, _ in o["rules"]:
                    i = int(name[1])
                    m = ref.fit_regression(D1[i], YR["1"]) if k == "reg" else ref.fit_classification(D1[i], YC["1"])
                    ctx.eq(bits, list(D1[i]), f"default settings: activation of {name}")
                    for a, v in m.items():
                        if a in stats:
                            ctx.eq(stats[a], v, f"default settings: {a} of {name}")
    return _want[k, p]


def settings(ctx, c):
    k, p = c["values"], c["pipeline"]
    want = expected(ctx, k, p)
    for s in ALL[c["from"]: c["from"] + 32]:
        compare(ctx, run(ctx, k, p, s), want, f"{PIPELINES[p]} on {k} under (to files, dtype, will compare, store raw, force stat, subattributes, memory, stacked fit, stacked activations) = {s}")
        ctx.state(k, p, s)
        ctx.outcome(f"memory {s[6]}")
        ctx.reset()


def switched(ctx, c):
    k, p = c["values"], c["pipeline"]
    want = expected(ctx, k, p)
    a = STORAGE[c["first"]]
    for b in STORAGE:
        what = f"{PIPELINES[p]} on {k} under (to files, dtype, will compare, store raw) = {a[:4]}, then {b[:4]} from operation {c['at']}"
        compare(ctx, run(ctx, k, p, a, b, c["at"]), want, what)
        ctx.state(k, p, a, b, c["at"])
        ctx.outcome("switched")
        ctx.reset()
