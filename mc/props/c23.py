"""C23: a rule gives access to its condition and activation as if they were its own."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import cond, ref, vec

PROPERTY = "C23"
NAN, INF = math.nan, math.inf
CONDITION = ("features_names", "features_indexes", "bmins", "bmaxs", "impossible", "getattr")
ACTIVATION = ("length", "nones", "coverage", "ones", "entropy", "rel_entropy", "raw", "as_integer", "as_compressed_str", "data_format")
GRID = [list(p) for p in itertools.product((-1, 0, 1, 2, 3), repeat=3)]
NAMES = ["a", "b", "c"]
# operations: attribute set through the rule, value
OPS = (
    ("bmins", [0, 1]), ("bmins", [2, -1]), ("bmins", [0.5, -INF]), ("bmins", "[1, 0]"), ("bmaxs", [1, 3]), ("bmaxs", [-1, INF]), ("bmaxs", [2.5, 0]), ("bmaxs", "[3, 2]"),
    ("features_indexes", [1, 0]), ("features_indexes", [2, 1]), ("features_names", ["b", "a"]), ("features_names", ["c", "b"]), ("features_names", "['a', 'c']"),
    ("fit", None), ("refused", None),
)
DEPTH = {"quick": 3, "thorough": 4}
BOUNDS = {
    t: f"all histories of {DEPTH[t]} changes of bounds, names and indexes made through a rule, among {len(OPS)}, on regression and classification rules, compared with a rule built directly and evaluated on "
    "all 125 points of a 3-feature grid; reading of all attributes of the condition and activation, whatever their value and also after freeing the activation, through rules and rule sets for all activations of up to 5 points x 16 storage settings"
    for t in DEPTH
}
STORES = list(itertools.product((True, False), vec.settings()))


def cases(tier):
    for st in range(len(STORES)):
        for n in range(1, 6):
            yield {"kind": "reading", "store": st, "n": n}
    for cls in ("RegressionRule", "ClassificationRule"):
        for ops in itertools.product(range(len(OPS)), repeat=DEPTH[tier]):
            if cls == "RegressionRule" or ops[0] < 4 or tier != "quick":
                yield {"kind": "writing", "cls": cls, "ops": list(ops)}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def plain(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    return v


def reading(ctx, c):
    import ruleskit
    from ruleskit import Rule, RuleSet

    local, s = STORES[c["store"]]
    Rule.LOCAL_ACTIVATION = local
    vec.apply_settings(s)
    for cls in (ruleskit.RegressionRule, ruleskit.ClassificationRule):
        for bits in vec.all_bits(c["n"]):
            r = ref.bit_rule(cls, 1, name="b")
            what = f"activation {bits}, to files {local}, settings {s}"
            ctx.raises(lambda: r.as_integer, f"{what}: as_integer before the fit", AttributeError)
            r.fit(np.arange(c["n"]), ref.columns([7] * c["n"], bits))
            ctx.ensure((r.features_names, list(r.features_indexes), r.bmins, r.bmaxs, len(r)) == (["b"], [1], [1], [1], 1), f"{what}: condition {r.features_names, r.features_indexes, r.bmins, r.bmaxs}")
            for a in CONDITION:
                ctx.ensure(getattr(r, a) == getattr(r.condition, a), f"{what}: {a} is {getattr(r, a)}")
            public(ctx, r, (r._activation, r.condition), what)
            s2 = RuleSet([r])
            public(ctx, s2, (s2._activation,), f"{what}: rule set")
            for o, which in ((r, "rule"), (s2, "rule set")):
                for a in ACTIVATION:
                    if a == "data_format":
                        ctx.ensure(isinstance(getattr(o, a), str), f"{what}: {a} of the {which}")
                        continue
                    got = plain(getattr(o, a))
                    ctx.eq(got, vec.value(bits, a), f"{what}: {a} of the {which}")
                    ctx.step()
                ctx.raises(lambda: o.no_such_attribute, f"{what}: unknown attribute of the {which}", AttributeError)
            ctx.state(c, cls.__name__, bits)
            r.del_activation()
            s2.del_activation()
            public(ctx, r, (r._activation, r.condition), f"{what}, freed")
            public(ctx, s2, (s2._activation,), f"{what}, freed: rule set")
    ctx.outcome("read")


def get(o, a):
    try:
        v = getattr(o, a)
    except Exception as e:
        return type(e).__name__
    if callable(v):
        return "a method"
    if isinstance(v, np.ndarray):
        return v.tolist()
    return v.to01() if hasattr(v, "to01") else v


def public(ctx, o, parts, what):
    """Every public attribute of the parts, whatever its value, is that of the whole."""
    for part in parts:
        for a in sorted(set(dir(part)) | set(vars(part))):
            if a.startswith(("_", "time", "sizeof")) or hasattr(type(o), a) or a in vars(o):
                continue
            want = get(part, a)
            got = get(o, a)
            ctx.ensure(type(got) is type(want) and (got == want or (got != got and want != want)), lambda: f"{what}: {a} is {got!r}, {want!r} in the {type(part).__name__}")
            ctx.step()


def build(cls, m):
    import ruleskit
    from ruleskit import HyperrectangleCondition as H

    return getattr(ruleskit, cls)(H(features_indexes=list(m["features_indexes"]), bmins=list(m["bmins"]), bmaxs=list(m["bmaxs"]), features_names=list(m["features_names"]), sort=False))


XA = np.array(GRID, dtype=float)
XF = pd.DataFrame(XA, columns=NAMES)


def writing(ctx, c):
    import ast

    from ruleskit import Rule

    Rule.LOCAL_ACTIVATION = False
    m = {"features_indexes": [0, 1], "bmins": [0, 0], "bmaxs": [2, 2], "features_names": ["a", "b"]}
    r = build(c["cls"], m)
    witness = build(c["cls"], m)
    condition = r.condition
    y = np.arange(len(GRID)) % 4
    done = []
    for k in c["ops"]:
        attr, value = OPS[k]
        done.append((attr, value))
        what = f"{done}"
        if attr == "fit":
            r.fit(y, XA)
        elif attr == "refused":
            for name, v in (("no_such_attribute", 1), ("bmin", [1, 2])):
                ctx.raises(lambda: setattr(r, name, v), f"{what}: setting {name}", AttributeError)
                ctx.ensure(not hasattr(r, name), f"{what}: {name} was set")
            for name, v in (("bmins", [1]), ("bmaxs", [1, 2, 3]), ("features_names", ["a", "a"]), ("features_names", ["a"]), ("features_indexes", [1, 1]), ("features_indexes", [0, 1, 2])):
                ctx.raises(lambda: setattr(r, name, v), f"{what}: setting {name} to {v}")
        else:
            setattr(r, attr, list(value) if isinstance(value, list) else value)
            m[attr] = ast.literal_eval(value) if isinstance(value, str) else list(value)
        ctx.step()
        ctx.ensure(r.condition is condition, f"{what}: the condition was replaced")
        for a, v in m.items():
            ctx.eq(list(getattr(r, a)), v, f"{what}: {a} of the rule")
            ctx.eq(list(getattr(r.condition, a)), v, f"{what}: {a} of the condition")
        fresh = build(c["cls"], m)
        ctx.ensure(r == fresh and hash(r) == hash(fresh) and r.condition == fresh.condition, f"{what}: {r} is not equal to {fresh}")
        ctx.ensure(r.impossible is fresh.impossible is any(a > b for a, b in zip(m["bmins"], m["bmaxs"])), f"{what}: impossible is {r.impossible}")
        rows = list(zip(m["features_indexes"], m["bmins"], m["bmaxs"]))
        ctx.eq([int(v) for v in r.evaluate_activation(XA).raw], cond.bits(rows, GRID), f"{what}: {r} on an array")
        rows = list(zip([NAMES.index(n) for n in m["features_names"]], m["bmins"], m["bmaxs"]))
        ctx.eq([int(v) for v in r.evaluate_activation(XF).raw], cond.bits(rows, GRID), f"{what}: {r} on a data frame")
        ctx.ensure(str(r.condition) == str(fresh.condition), f"{what}: {r}, expected {fresh}")
        ctx.state(c["cls"], done)
    ctx.ensure((witness.bmins, witness.bmaxs, witness.features_names) == ([0, 0], [2, 2], ["a", "b"]), f"{done}: another rule changed: {witness}")
    r.fit(y, XA)
    rows = list(zip(m["features_indexes"], m["bmins"], m["bmaxs"]))
    ctx.eq(ref.bits_of(r), cond.bits(rows, GRID), f"{done}: activation after fitting again")
    ctx.outcome("impossible" if r.impossible else "possible")
