"""C26: the text of a condition, rule or rule set states exactly what it is."""
import itertools
import math
import re

import numpy as np

from mc.cond import INF

PROPERTY = "C26"
NUM = (0, 1, -1, 0.0, 0.5, -0.25, 0.1, 0.1 + 0.2, 1 / 3, math.nextafter(1, 2), 1e-7, 5e-324, -1e-300, 123456.789, 1e16, 2**53 + 1, 1e300, INF, -INF,
       16777217, 1234567890123, "np.float64(0.1)", "np.int64(3)", "np.float64(1e-9)")
NAMES = ("x", "X_10", "a b", "in", "é", "a AND", "x.y", "price[eur]", "long_" * 20, "7")
PREDS = (0.0, 1.5, -2, 0.1 + 0.2, 1e-9, 123456.789, 1e20, math.nan, INF, "up", "two words", "Then")
WEIGHTS = tuple(range(1, 8))
NL = {"quick": (1, 2, 3, 5, 7), "thorough": tuple(range(1, 12))}
BOUNDS = {
    t: f"all pairs of {len(NUM)} numbers as bounds of 1 feature, and of 2 features with one bound varying; {len(NAMES)}^2 pairs of names; up to 40 features in several orders; "
    f"{len(PREDS)} predictions, set or fitted, in both classes of rules; all pairs of the texts of these conditions; rule sets of 0 to 30 rules for {len(NL[t])} numbers of lines, also after appending, slicing and sorting"
    for t in NL
}
ASSUMPTIONS = ["names of features do not contain the text ' in ['", "a rule set of exactly twice NLINES rules may or may not have the ellipsis"]


def cases(tier):
    for i in range(len(NUM)):
        yield {"kind": "bounds", "i": i}
    for i in range(len(NAMES)):
        yield {"kind": "names", "i": i}
    for n in tuple(range(1, 13)) + (20, 40):
        yield {"kind": "wide", "n": n}
    for i in range(len(PREDS)):
        yield {"kind": "prediction", "i": i}
    for nl in NL[tier]:
        for n in range(31):
            yield {"kind": "rulesets", "n": n, "nl": nl}
    yield {"kind": "different"}
    yield {"kind": "empty"}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def val(v):
    return eval(v, {"np": np}) if isinstance(v, str) else v


def make(fs, sort=True, indexes=None):
    from ruleskit import HyperrectangleCondition as H

    return H(features_indexes=indexes or list(range(len(fs))), bmins=[f[1] for f in fs], bmaxs=[f[2] for f in fs], features_names=[f[0] for f in fs], sort=sort)


ONE = re.compile(r"(.+?) in \[([^\[\],]+), ([^\[\],]+)\](?: AND |$)", re.S)


def parse(text):
    """Name and bounds of each feature, in the order of the text, or None if it is not entirely made of them."""
    out, i = [], 0
    while i < len(text):
        m = ONE.match(text, i)
        if m is None:
            return None
        out.append((m[1], m[2], m[3]))
        i = m.end()
    return out


def number(text):
    try:
        return int(text)
    except ValueError:
        return float(text)


def states(ctx, text, fs, what):
    got = parse(text)
    ctx.ensure(got is not None, f"{what}: the text {text!r} is not a conjunction of intervals")
    ctx.ensure([g[0] for g in got] == [f[0] for f in fs], lambda: f"{what}: {text!r} states the features {[g[0] for g in got]}, expected {[f[0] for f in fs]}")
    for g, f in zip(got, fs):
        for t, v in zip(g[1:], f[1:]):
            try:
                ok = number(t) == v
            except ValueError:
                ok = False
            ctx.ensure(ok, f"{what}: {text!r} states {t} where the bound is {v!r}")
    ctx.step()


def bounds(ctx, c):
    v = val(NUM[c["i"]])
    for w in map(val, NUM):
        for fs in ([("x", v, w)], [("x", w, v)], [("x", 0, 1), ("y", v, w)], [("x", v, w), ("y", 0, 1)]):
            cd = make(fs)
            states(ctx, str(cd), fs, f"{fs}")
            ctx.ensure(repr(cd) == str(cd), f"{fs}: the representation {cd!r} is not the text {cd}")
        # after a change of bounds
        cd = make([("x", 7, 8)])
        str(cd)
        cd.bmins, cd.bmaxs = [v], [w]
        states(ctx, str(cd), [("x", v, w)], f"bounds changed to {v!r}, {w!r}")
        ctx.state("bounds", c["i"], repr(w))
    ctx.outcome("bounds")


def names(ctx, c):
    a = NAMES[c["i"]]
    for b in NAMES:
        fss = [[(a, 0, 1)]] + ([[(a, 0, 1), (b, -1, 2.5)], [(b, 0, 1), (a, 0, 1)]] if a != b else [])
        for fs in fss:
            cd = make(fs)
            states(ctx, str(cd), fs, f"{fs}")
            cd = make([(f"p{i}", f[1], f[2]) for i, f in enumerate(fs)])
            cd.features_names = [f[0] for f in fs]
            states(ctx, str(cd), fs, f"names changed to {[f[0] for f in fs]}")
        ctx.state("names", a, b)
    ctx.outcome("names")


def wide(ctx, c):
    n = c["n"]
    fs = [(f"f{k}", k - 3, k + 0.5) for k in range(n)]
    for order in (range(n), range(n)[::-1], [*range(1, n, 2), *range(0, n, 2)]):
        o = [fs[k] for k in order]
        states(ctx, str(make(o, sort=False, indexes=list(order))), o, f"{n} features, unsorted")
        states(ctx, str(make(o, indexes=list(order))), fs, f"{n} features, sorted")
        ctx.state("wide", n, list(order))
    ctx.outcome("wide")


def prediction(ctx, c):
    import ruleskit

    p = PREDS[c["i"]]
    for cls in ("RegressionRule", "ClassificationRule"):
        if isinstance(p, str) and cls == "RegressionRule":
            continue
        for fs in ([("x", 0, 1)], [("x", -INF, 0.5), ("y", 1e-9, INF)]):
            r = getattr(ruleskit, cls)(make(fs))
            ruletext(ctx, r, fs, None)
            r._prediction = p
            ruletext(ctx, r, fs, p)
            ctx.state("prediction", cls, fs)
            if p == p and p != INF:
                # fitted, one target for the active points
                r = getattr(ruleskit, cls)(make(fs))
                xs = np.full((4, 2), 0.25)
                xs[2:, 0] = 9
                other = "zz" if isinstance(p, str) else -77.0
                r.fit(y=np.array([p, p, other, other]), xs=xs)
                ruletext(ctx, r, fs, r.prediction)
                ctx.ensure(r.prediction == p, f"{fs}: prediction {r.prediction!r} of targets {p!r}")
                r.bmins = [-1.0] * len(fs)
                ruletext(ctx, r, [(f[0], -1.0, f[2]) for f in fs], p)
    ctx.outcome("prediction")


def ruletext(ctx, r, fs, p):
    t = str(r)
    m = re.fullmatch(r"If (.*?) Then (.*)\.", t, re.S)
    ctx.ensure(m is not None, f"the text of a rule is {t!r}")
    states(ctx, m[1], fs, f"rule {t!r}")
    ctx.ensure(m[1] == str(r.condition), f"rule {t!r} does not have the text of its condition {r.condition}")
    if p is None:
        try:
            float(m[2])
            ok = False
        except ValueError:
            ok = True
    elif isinstance(p, str):
        ok = m[2] == p
    else:
        try:
            ok = number(m[2]) == p or (p != p and math.isnan(float(m[2])))
        except ValueError:
            ok = False
    ctx.ensure(ok, f"rule {t!r}: its prediction is {p!r}")


def different(ctx, c):
    """Different conditions have different texts (weights of rules are given by text)."""
    seen = {}
    for v, w in itertools.product(map(val, NUM), repeat=2):
        for fs in ([("x", v, w)], [("y", v, w)], [("x", 0, 1), ("y", v, w)], [("x", v, w), ("y", 0, 1)]):
            cd = make(fs)
            o = seen.setdefault(str(cd), cd)
            ctx.ensure(o == cd, f"different conditions have the same text {cd}")
            ctx.step()
    ctx.state("different", len(seen))
    ctx.outcome("different")


def rulesets(ctx, c):
    from ruleskit import RegressionRule, RuleSet

    n, nl = c["n"], c["nl"]
    rules = [RegressionRule(make([("x", k, k + 1 + k % 3)])) for k in range(n)]
    for k, r in enumerate(rules):
        r._prediction = float(k)
    nl0 = RuleSet.NLINES
    RuleSet.NLINES = nl
    try:
        s = RuleSet(list(rules[::-1]))
        shown(ctx, s, rules[::-1], nl)
        s.sort()
        shown(ctx, s, rules, nl)
        t = RuleSet([])
        for r in rules:
            t.append(r)
        shown(ctx, t, rules, nl)
        for sl in (slice(None, None, -1), slice(1, None), slice(0, n // 2), slice(None, None, 2)):
            if n:
                shown(ctx, s[sl], rules[sl], nl)
    finally:
        RuleSet.NLINES = nl0
    ctx.state("rulesets", n, nl)
    ctx.outcome("all rules" if n < 2 * nl else "first and last rules")


def shown(ctx, s, rules, nl):
    want = [str(r) for r in rules]
    short = "\n".join(want[:nl] + ["..."] + want[len(want) - nl:])
    ok = {"\n".join(want)} if len(want) < 2 * nl else {short} if len(want) > 2 * nl else {short, "\n".join(want)}
    ctx.ensure(str(s) in ok, lambda: f"a set of {len(rules)} rules, {nl} lines: text is {str(s)!r}, expected {min(ok)!r}")
    ctx.step()


def empty(ctx, c):
    from ruleskit import ClassificationRule, HyperrectangleCondition, RegressionRule, RuleSet

    for r in (RegressionRule(), ClassificationRule(), HyperrectangleCondition(empty=True)):
        ctx.ensure(parse(str(r)) is None, f"an empty rule or condition has the text {r}")
        ctx.step()
    ctx.ensure(str(RuleSet([])) == "", f"an empty rule set has the text {RuleSet([])}")
    ctx.outcome("empty")
