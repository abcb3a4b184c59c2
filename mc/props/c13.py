"""C13: a rule is flagged bad exactly when it violates a threshold, and says which."""
import itertools
import json
import math

import numpy as np

from mc import ref

PROPERTY = "C13"
ARGS = {None: lambda x: x, "abs": abs, "sqrt": math.sqrt, "exp": math.exp, "log": math.log, "int": int}
DATA = {
    "reg": ((1, 1, 0, 0), (3, 1, 5, 7)),
    "neg": ((0, 1, 1, 1, 0, 0, 0, 0), (5, -3, -1, -2, 4, 7, 0, 1)),
    "big": ((1,) * 20 + (0,) * 5, tuple((k % 4) + (2 if k < 20 else 0) for k in range(25))),
}
CDATA = ((1, 1, 1, 0), (1, 1, 2, 0))
REG = ("coverage", "train_set_size", "prediction", "std", "zscore", "criterion")
CLS = ("coverage", "train_set_size", "prediction", "criterion")
OPS = ("fit_a", "fit_b", "eval_a", "eval_b", "keep_b", "own_lax", "own_strict", "own_none", "class_strict", "class_none", "force_a", "force_b", "refit_b")
DEPTH = {"quick": 4, "thorough": 5}
BOUNDS = {
    t: "for each attribute of both types of rules, each of the functions, each limit and pair of limits, at, next to, and around the value of the attribute "
    "(to the last bit), set on the rule, on its class or on the base class; all subsets of violated attributes, forced or not; limits "
    "relative to other attributes, for rules alone and in sets fitted rule by rule or all at once, also shared by two and three rules with different values; "
    f"all histories of {DEPTH[t]} operations among {len(OPS)}; default minimum coverage for all numbers of activated points among 1 to 60"
    for t in DEPTH
}
LIMS = ("min", "max", "equal", "different")
LEVELS = ("own", "class", "base", "class_late", "own_over_class")


def cases(tier):
    for kind, attrs in (("reg", REG), ("neg", REG), ("big", REG), ("cls", CLS)):
        for a in attrs:
            for arg in ARGS:
                for level in LEVELS:
                    yield {"kind": "single", "data": kind, "attr": a, "arg": arg, "level": level}
        yield {"kind": "subsets", "data": kind}
        yield {"kind": "relative", "data": kind}
        for stacked in (False, True):
            yield {"kind": "relative_set", "data": kind, "stacked": stacked}
    for ops in itertools.product(OPS, repeat=DEPTH[tier]):
        yield {"kind": "history", "ops": list(ops)}
    for n in range(1, 61):
        yield {"kind": "default_coverage", "n": n}
    for order in itertools.permutations(("reg", "neg", "big"), 2):
        yield {"kind": "shared", "order": list(order)}
    for order in itertools.permutations(("reg", "neg", "big")):
        yield {"kind": "shared", "order": list(order)}
    yield {"kind": "scopes"}
    yield {"kind": "malformed"}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def sets(kind):
    if kind == "cls":
        return "ClassificationRule", CDATA, CLS
    return "RegressionRule", DATA[kind], REG


def new(kind):
    import ruleskit

    return ref.bit_rule(getattr(ruleskit, sets(kind)[0]), 0)


def fit_eval(r, kind, force=False, only_fit=False):
    _, (bits, y), _ = sets(kind)
    xs, yy = ref.columns(bits), np.array(y, dtype=float)
    r.fit(yy, xs, force_if_not_good=force)
    if not only_fit:
        r.eval(yy, xs, force_if_not_good=force)
    return r


def write(ctx, limits, name="thresholds.json"):
    p = ctx.files / name
    p.write_text(json.dumps({"coverage": {"min": -1}, **limits}))
    return p


def install(ctx, level, path, make):
    """Returns a new rule to which the thresholds of the file apply."""
    import ruleskit
    from ruleskit import Rule

    r0 = make()
    cls = type(r0)
    if level == "own":
        r0.set_thresholds(path)
        return r0
    if level == "class":
        cls.SET_THRESHOLDS(path)
        return make()
    if level == "base":
        Rule.SET_THRESHOLDS(str(path))
        return make()
    if level == "class_late":
        cls.SET_THRESHOLDS(path)
        return r0
    if level == "own_over_class":
        cls.SET_THRESHOLDS(write(ctx, {a: {"max": -1e9} for a in ("prediction", "train_set_size", "criterion")}, "other.json"))
        r0.set_thresholds(path)
        return r0
    raise KeyError(level)


def uninstall():
    import ruleskit

    for cls in (ruleskit.RegressionRule, ruleskit.ClassificationRule):
        if "THRESHOLDS" in cls.__dict__:
            del cls.THRESHOLDS
    ruleskit.Rule.THRESHOLDS = None


def ok(value, lim):
    v = ARGS[lim.get("arg")](value)
    return not (
        ("min" in lim and v < lim["min"]) or ("max" in lim and v > lim["max"]) or ("equal" in lim and v != lim["equal"])
        or ("different" in lim and v == lim["different"])
    )


def around(v):
    return [v - 1, math.nextafter(v, -math.inf), v, math.nextafter(v, math.inf), v + 1]


def verdict(ctx, r, good, attrs, what):
    ctx.ensure(r.good is good or r.good == good, f"{what}: good is {r.good}, expected {good}")
    if good:
        ctx.ensure(r.bad_because is None, f"{what}: good, but bad because of {r.bad_because}")
    else:
        ctx.ensure(r.bad_because in attrs, f"{what}: bad because of {r.bad_because}, expected one of {sorted(attrs)}")
    ctx.outcome("good" if good else "bad")
    ctx.step()


def actual(kind):
    r = fit_eval(new(kind), kind)
    return {a: float(getattr(r, a)) for a in sets(kind)[2]}


def single(ctx, c):
    kind, a, arg = c["data"], c["attr"], c["arg"]
    v = actual(kind)[a]
    if arg in ("sqrt", "log") and v <= 0:
        return
    x = ARGS[arg](v)
    limits = [{k: b} for k in LIMS for b in around(x)]
    limits += [{"min": lo, "max": hi} for lo in around(x) for hi in around(x)]
    limits += [{"different": d, k: b} for d in around(x)[1:4] for k in ("min", "max", "equal") for b in around(x)[1:4]]
    for lim in limits:
        lim = {**lim, **({"arg": arg} if arg else {})}
        path = write(ctx, {a: lim})
        if a == "coverage" and "min" not in lim:
            lim = {**lim, "min": 0.05} if arg is None else lim
            if arg is not None:
                continue
        good = ok(v, lim)
        r = install(ctx, c["level"], path, lambda: new(kind))
        fit_eval(r, kind)
        verdict(ctx, r, good, {a}, f"{a} = {v}, limits {lim} set on {c['level']}")
        if not good and kind != "cls":
            order = ("coverage", "prediction", "std", "zscore")
            if a in order:
                for b in order[order.index(a) + 1:]:
                    ctx.ensure(ref.na(getattr(r, b)), f"{a} = {v}, limits {lim}: {b} = {getattr(r, b)} though the rule is bad")
        if not good:
            # forced: everything is computed all the same
            uninstall()
            r = install(ctx, c["level"], path, lambda: new(kind))
            fit_eval(r, kind, force=True)
            verdict(ctx, r, False, {a}, f"forced, {a} = {v}, limits {lim} set on {c['level']}")
            free = fit_eval(new_free(kind), kind)
            for b in sets(kind)[2]:
                ctx.eq(getattr(r, b), getattr(free, b), f"forced, {a} = {v}, limits {lim}: {b}")
        uninstall()
        ctx.state(kind, a, arg, lim, c["level"])


def new_free(kind):
    r = new(kind)
    r.set_thresholds(None)
    return r


def subsets(ctx, c):
    """All subsets of attributes whose limits are violated; the other limits are satisfied."""
    kind = c["data"]
    val = actual(kind)
    attrs = sets(kind)[2]
    for bad in itertools.product((False, True), repeat=len(attrs)):
        for how in (0, 1, 2):
            violated = {a for a, b in zip(attrs, bad) if b}
            lims = {}
            for k, a in enumerate(attrs):
                if how == 0:
                    lims[a] = {"min": math.nextafter(val[a], math.inf) if a in violated else val[a]}
                elif how == 1:
                    lims[a] = {"min": -1e6, "max": math.nextafter(val[a], -math.inf) if a in violated else val[a]}
                else:
                    lims[a] = {"min": -1e6, ("different" if a in violated else "equal"): val[a]}
            for order in (1, -1):
                path = write(ctx, dict(list(lims.items())[::order]))
                for level, force in (("own", False), ("class", True), ("class_late", False)):
                    r = install(ctx, level, path, lambda: new(kind))
                    fit_eval(r, kind, force)
                    verdict(ctx, r, not violated, violated, f"violated limits {sorted(violated)} ({how}), on {level}, forced {force}")
                    uninstall()
            ctx.state(kind, bad, how)


def relative(ctx, c):
    """Limits that are another attribute, computed before or after the limited one."""
    kind = c["data"]
    val = actual(kind)
    seq = [a for a in sets(kind)[2]]
    for a in seq:
        for b in seq:
            for lim in LIMS:
                good = ok(val[a], {"min": -1e9, lim: val[b]} if lim != "min" else {lim: val[b]})
                path = write(ctx, {a: {"min": -1e9, lim: b}})
                for level in ("own", "class"):
                    r = install(ctx, level, path, lambda: new(kind))
                    fit_eval(r, kind)
                    verdict(ctx, r, good, {a}, f"{a} = {val[a]}, {lim} {b} = {val[b]}")
                    uninstall()
            ctx.state(kind, a, b)


def relative_set(ctx, c):
    """Limits that are another attribute, for the rules of a set fitted rule by rule or all at once."""
    from ruleskit import RuleSet

    kind = c["data"]
    val = actual(kind)
    bits, y = sets(kind)[1]
    xs, yy = ref.columns(bits), ref.pd.Series(y, dtype=float)
    for a in sets(kind)[2]:
        for b in sets(kind)[2]:
            for lim in LIMS:
                good = ok(val[a], {lim: val[b]})
                path = write(ctx, {a: {"min": -1e9, lim: b}} if lim != "min" else {a: {lim: b}})
                r = install(ctx, "class", path, lambda: new(kind))
                RuleSet.STACKED_FIT = c["stacked"]
                try:
                    s = RuleSet([r])
                    s.fit(yy, xs)
                    if len(s):
                        s.eval(yy, xs)
                    what = f"set fitted {'all at once' if c['stacked'] else 'rule by rule'}: {a} = {val[a]}, {lim} {b} = {val[b]}"
                    verdict(ctx, r, good, {a}, what)
                    ctx.ensure((len(s) == 1) is good, f"{what}: rule {'kept' if len(s) else 'dropped'}")
                finally:
                    RuleSet.STACKED_FIT = False
                    uninstall()
            ctx.state(kind, a, b)


def shared(ctx, c):
    """The same limits, relative to other attributes or absolute, for several rules one after the other."""
    vals = {k: actual(k) for k in c["order"]}
    for i, a in enumerate(REG):
        for lim in LIMS:
            for b in REG + tuple(sorted({round(vals[k][a], 3) for k in c["order"]})):
                for arg in (None, "abs"):
                    body = {"min": -1e9, lim: b, **({"arg": arg} if arg else {})}
                    path = write(ctx, {a: body})
                    for level in ("class", "base", "own"):
                        rs = []
                        if level == "own":
                            rs = [new(k) for k in c["order"]]
                            rs[0].set_thresholds(path)
                            for r in rs[1:]:
                                r.set_thresholds(path)
                        else:
                            r0 = install(ctx, level, path, lambda: new("reg"))
                            rs = [new(k) for k in c["order"]]
                        for r, k in zip(rs, c["order"]):
                            known = {**body, lim: vals[k][b] if isinstance(b, str) else b}
                            fit_eval(r, k)
                            verdict(ctx, r, ok(vals[k][a], known), {a}, f"rule fitted on {k} of {c['order']} sharing {a}: {body} (on {level}), {a} = {vals[k][a]}")
                        uninstall()
            ctx.state(c["order"], a, lim)


STRICT = {"prediction": {"min": 0, "max": 2.5}, "criterion": {"max": 3}, "coverage": {"min": 0.3}}
H = {"a": ((1, 1, 0, 0), (3, 1, 5, 7)), "b": ((1, 0, 0, 0, 0, 0), (-3, 1, 2, 0, 5, 7))}


def history(ctx, c):
    from ruleskit import RegressionRule, Rule

    Rule.LOCAL_ACTIVATION = False
    strict = write(ctx, STRICT, "strict.json")
    lax = write(ctx, {"std": {"min": -1}}, "lax.json")
    limits = {None: {}, "strict": {"coverage": {"min": 0.3}, **STRICT}, "lax": {}}
    r = new("reg")
    own, cls = "class", None
    good, because = True, set()
    fitted = None
    state = {"coverage": None, "prediction": None, "criterion": None}

    def check():
        nonlocal good
        lims = limits[cls if own == "class" else own]
        bad = {a for a in state if state[a] is not None and not ref.na(state[a]) and a in lims and not ok(state[a], lims[a])}
        if bad:
            because.update(bad)
            good = False
        return bad

    for k, op in enumerate(c["ops"]):
        what = f"after {c['ops'][:k + 1]}"
        if op[-2:] in ("_a", "_b"):
            bits, y = H[op[-1]]
            xs, yy = ref.columns(bits), np.array(y, dtype=float)
        if op.startswith("fit"):
            was = good
            r.fit(yy, xs)
            state["coverage"] = sum(bits) / len(bits)
            lims = limits[cls if own == "class" else own]
            if "coverage" in lims and not ok(state["coverage"], lims["coverage"]):
                good = False
                because.add("coverage")
            if good:
                state["prediction"] = ref.fit_regression(bits, y)["prediction"]
                check()
                if good:
                    ref.check_stats(ctx, r, ref.fit_regression(bits, y), what)
            else:
                state["prediction"] = math.nan
                ctx.ensure(ref.na(r.prediction), f"{what}: prediction {r.prediction} though the rule is bad")
            fitted = op[-1]
            if not was:
                ctx.ensure(not r.good, f"{what}: a bad rule became good")
        elif op.startswith("refit"):
            # forced: everything is computed, and a bad rule stays bad
            r.fit(yy, xs, force_if_not_good=True)
            state["coverage"] = sum(bits) / len(bits)
            state["prediction"] = ref.fit_regression(bits, y)["prediction"]
            check()
            ref.check_stats(ctx, r, ref.fit_regression(bits, y), what)
            fitted = op[-1]
        elif op.startswith("force"):
            if fitted is None:
                continue
            r.eval(yy, xs, force_if_not_good=True)
            if ref.na(state["prediction"]):
                state["criterion"] = math.nan
            else:
                state["criterion"] = ref.criterion_regression(ref.vector(bits, state["prediction"]), y)
                ctx.eq(r.criterion, state["criterion"], f"{what}: criterion")
                check()
        elif op.startswith(("eval", "keep")):
            if fitted is None:
                continue
            r.eval(yy, xs, recompute_activation=op.startswith("keep"))
            if good:
                if op.startswith("keep"):
                    state["coverage"] = sum(bits) / len(bits)
                    lims = limits[cls if own == "class" else own]
                    if "coverage" in lims and not ok(state["coverage"], lims["coverage"]):
                        good = False
                        because.add("coverage")
            if good:
                state["criterion"] = ref.criterion_regression(ref.vector(bits, state["prediction"]), y)
                check()
                ctx.eq(r.criterion, state["criterion"], f"{what}: criterion")
            else:
                state["criterion"] = math.nan
        elif op.startswith("own"):
            r.set_thresholds({"own_lax": lax, "own_strict": strict, "own_none": None}[op])
            own = {"own_lax": "lax", "own_strict": "strict", "own_none": None}[op]
        else:
            RegressionRule.SET_THRESHOLDS(strict if op == "class_strict" else None)
            cls = "strict" if op == "class_strict" else None
        verdict(ctx, r, good, because, what)
        ctx.state(own, cls, good, fitted, tuple(state.items()))


def default_coverage(ctx, c):
    """A thresholds file that sets no minimum coverage requires 5 %; without a file there is no limit."""
    from ruleskit import Activation, ClassificationRule, RegressionRule, Rule

    n = c["n"]
    files = {}
    for name, content in (("none", {}), ("other", {"prediction": {"min": -100}}), ("max", {"coverage": {"max": 0.75}}), ("zero", {"coverage": {"min": 0}}),
                          ("ten", {"coverage": {"min": 0.1}})):
        files[name] = ctx.files / f"{name}.json"
        files[name].write_text(json.dumps(content))
    files["absent"] = ctx.files / "absent.json"
    lo = {"none": 0.05, "other": 0.05, "max": 0.05, "zero": 0, "ten": 0.1, "absent": 0}
    Rule.LOCAL_ACTIVATION = False
    for k in range(n + 1):
        bits = [1] * k + [0] * (n - k)
        xs, y = ref.columns(bits), np.arange(n, dtype=float)
        for name, path in files.items():
            good = k / n >= lo[name] and not (name == "max" and k / n > 0.75)
            for cls in (RegressionRule, ClassificationRule):
                r = ref.bit_rule(cls, 0)
                r.set_thresholds(path)
                r.fit(y, xs)
                verdict(ctx, r, good, {"coverage"}, f"coverage {k}/{n}, file {name}")
        # a rule built with its activation is checked at once
        RegressionRule.SET_THRESHOLDS(files["ten"])
        r = RegressionRule(ref.bit_rule(RegressionRule, 0).condition, Activation(np.array(bits), to_file=False))
        verdict(ctx, r, k / n >= 0.1, {"coverage"}, f"coverage {k}/{n}, rule built with its activation")
        uninstall()
        ctx.state(n, k)


def scopes(ctx, c):
    """Thresholds of a class apply to this class only, now and later; own ones to the rule only; None removes them."""
    from ruleskit import ClassificationRule, RegressionRule, Rule

    bad = write(ctx, {"train_set_size": {"max": 1}})

    def state():
        out = []
        for kind in ("reg", "cls"):
            out.append(fit_eval(new(kind), kind).good)
        return tuple(out)

    for first in (Rule, RegressionRule, ClassificationRule, None):
        for second in (Rule, RegressionRule, ClassificationRule, None):
            uninstall()
            want = {"reg": None, "cls": None}
            for cls, path in ((first, bad), (second, None)):
                if cls is not None:
                    cls.SET_THRESHOLDS(path)
            ownset = {}
            for cls, path in ((first, True), (second, False)):
                if cls is not None:
                    ownset[cls] = path
            for kind, cls in (("reg", RegressionRule), ("cls", ClassificationRule)):
                want[kind] = not ownset.get(cls, ownset.get(Rule, False))
            ctx.ensure(state() == (want["reg"], want["cls"]), f"limits on {first}, none on {second}: good is {state()}, expected {want}")
            ctx.step()
            ctx.state(str(first), str(second))
    uninstall()
    # own thresholds of one rule do not affect another, nor thresholds set later on the class the rule that has its own
    r1, r2 = new("reg"), new("reg")
    r1.set_thresholds(bad)
    fit_eval(r1, "reg"), fit_eval(r2, "reg")
    ctx.ensure((r1.good, r2.good) == (False, True), "own thresholds of another rule are used")
    r3 = new("reg")
    r3.set_thresholds(write(ctx, {}, "empty.json"))
    RegressionRule.SET_THRESHOLDS(bad)
    r4 = new("reg")
    fit_eval(r3, "reg"), fit_eval(r4, "reg")
    ctx.ensure((r3.good, r4.good) == (True, False), "thresholds of the class replace those of the rule")
    RegressionRule.SET_THRESHOLDS(None)
    r5 = fit_eval(new("reg"), "reg")
    ctx.ensure(r5.good, "removed thresholds of the class are used")
    ctx.outcome("scopes")


def malformed(ctx, c):
    for lim in ({"arg": "nope", "min": 0}, {"min": [1]}, {"max": None}):
        r = new("reg")
        r.set_thresholds(write(ctx, {"prediction": lim}))
        ctx.raises(lambda: fit_eval(r, "reg"), f"threshold {lim}")
        ctx.step()
    ctx.outcome("refused")
