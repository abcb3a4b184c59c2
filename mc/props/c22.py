"""C22: freeing activation data keeps what was computed."""
import itertools
import math

import numpy as np

from mc import ref, vec

PROPERTY = "C22"
NAN = math.nan
MODES = tuple(itertools.product((False, True), repeat=2))  # (stacked fit, stacked activations kept)
STORES = list(itertools.product((True, False), vec.settings()))  # (to files, Activation settings)
OPS = ("del0", "del1", "del_all", "del_set", "del_stacked", "fit1", "fit2", "keep2", "eval1", "sort", "predict")
DEPTH = {"quick": 3, "thorough": 4}
BOUNDS = {
    t: f"all histories of {DEPTH[t]} operations among {len(OPS)} (freeing one rule, all rules, the set, the stacked activations; fitting again, evaluating, sorting, predicting) on a fitted "
    f"regression rule set in 4 fit modes x files or memory, and of {DEPTH[t] - 1} operations in 4 modes x 16 storage settings for both types of rules; single rules in every storage setting"
    for t in DEPTH
}
ASSUMPTIONS = [
    "what a rule set predicts from its own activations when those of some rules were freed, and adding rules to a set whose own activation was freed, are not specified",
]
DATA = {
    "1": ([0, 1, 1, 0, 0, 1], [0, 0, 1, 1, 0, 0], [1, 0, 0, 0, 0, 1]),
    "2": ([1, 0, 0, 1], [0, 1, 1, 0], [0, 0, 1, 0]),
}
YR = {"1": [4, 1, -2, 8, NAN, 1], "2": [-4, 6, 1, 2]}
YC = {"1": ["a", "b", "b", "c", "a", "c"], "2": ["b", "b", "a", "c"]}
NEW = ref.columns([1, 0, 1, 0], [1, 1, 0, 0], [0, 1, 1, 0])


def cases(tier):
    for k in ("reg", "class"):
        for st in range(len(STORES)):
            yield {"kind": "single", "values": k, "store": st}
    d = DEPTH[tier]
    for k, m, st in itertools.product(("reg", "class"), range(4), range(len(STORES))):
        for ops in itertools.product(OPS, repeat=d - 1):
            if any(o.startswith("del") for o in ops):
                yield {"kind": "history", "values": k, "mode": m, "store": st, "ops": list(ops)}
    for m, st in itertools.product(range(4), (0, len(vec.settings()))):
        for ops in itertools.product(OPS, repeat=d):
            if any(o.startswith("del") for o in ops):
                yield {"kind": "history", "values": "reg", "mode": m, "store": st, "ops": list(ops)}


def run_case(ctx, c):
    local, s = STORES[c["store"]]
    from ruleskit import Rule

    Rule.LOCAL_ACTIVATION = local
    vec.apply_settings(s)
    globals()[c["kind"]](ctx, c)


def target(k, d):
    return np.array(YR[d], dtype=float) if k == "reg" else np.array(YC[d])


def model(k, d, i):
    return ref.fit_regression(DATA[d][i], YR[d]) if k == "reg" else ref.fit_classification(DATA[d][i], YC[d])


def classes(k):
    import ruleskit

    return ruleskit.RegressionRule if k == "reg" else ruleskit.ClassificationRule


def check_rule(ctx, r, want, bits, what):
    """want: the statistics; bits: the activation, or None if it was freed."""
    ref.check_stats(ctx, r, want, what)
    ctx.eq(ref.bits_of(r), bits, f"{what}: activation")
    ctx.ensure(r.activation_available is (bits is not None), f"{what}: activation_available is {r.activation_available}")


def single(ctx, c):
    k = c["values"]
    cls = classes(k)
    unfit = ref.bit_rule(cls, 0)
    unfit.del_activation()
    ctx.ensure(unfit.activation is None and not unfit.activation_available, "a rule never fitted, freed: activation")
    for d, i in itertools.product("12", range(3)):
        r, other = ref.bit_rule(cls, i), ref.bit_rule(cls, (i + 1) % 3)
        xs, y = ref.columns(*DATA[d]), target(k, d)
        other.fit(y, xs)
        files = vec.listing(ctx.vectors)
        r.fit(y, xs)
        own = set(vec.listing(ctx.vectors)) - set(files)
        r.eval(y)
        what = f"rule {i} fitted on {d}"
        want = model(k, d, i)
        want["criterion"] = r.criterion
        text = str(r)
        bits = list(DATA[d][i])
        check_rule(ctx, r, want, bits, what)
        for n in (1, 2):
            r.del_activation()
            check_rule(ctx, r, want, None, f"{what}, freed {n} times")
            ctx.eq(r.nones, sum(bits), f"{what}, freed {n} times: number of activated points")
            ctx.ensure(str(r) == text, f"{what}, freed: {r}, was {text}")
            now = vec.listing(ctx.vectors)
            ctx.ensure(not own & set(now), f"{what}, freed: its file is still there")
            ctx.ensure(all(now.get(f) == v for f, v in files.items()), f"{what}, freed: files that were there before the fit changed")
            r.fit(y)  # fitted already, and no new features: nothing to do
            check_rule(ctx, r, want, None, f"{what}, freed {n} times, fitted without features")
            ctx.raises(lambda: r.predict(), f"{what}, freed: predict without features", ValueError)
            ctx.raises(lambda: r.eval(y), f"{what}, freed: eval without features", ValueError)
            got = ref.vals(r.predict(NEW))
            ctx.eq(got, ref.vector([int(v) for v in NEW[:, i]], want["prediction"]), f"{what}, freed: prediction on new data")
            ctx.eq(ref.bits_of(other), list(DATA[d][(i + 1) % 3]), f"{what}, freed: activation of another rule")
            check_rule(ctx, r, want, None, f"{what}, freed {n} times, used")
            ctx.step(4)
        r.fit(y, xs)
        check_rule(ctx, r, dict(want, criterion=r.criterion), bits, f"{what}, freed and fitted again")
        r.del_activation()
        other.del_activation()
        ctx.state(c, d, i)
    ctx.outcome("single rule")


def history(ctx, c):
    from ruleskit import RuleSet

    k = c["values"]
    sfit, stack = MODES[c["mode"]]
    RuleSet.STACKED_FIT = sfit
    rules = [ref.bit_rule(classes(k), i) for i in range(3)]
    s = RuleSet(list(rules), stack_activation=stack)
    order = list(range(3))
    s.fit(target(k, "1"), ref.columns(*DATA["1"]))
    fitted = "1"  # data of the statistics
    held = "1"  # data of the activations
    bits = [list(b) for b in DATA["1"]]
    available = [True] * 3
    set_available, set_bits = True, orof("1")
    stacked = stack
    for n, op in enumerate(c["ops"]):
        what = f"{c['ops'][:n + 1]}"
        known = [(ref.plain(r.criterion), r.test_set_size) for r in rules]
        if op in ("del0", "del1"):
            i = int(op[-1])
            rules[i].del_activation()
            available[i] = False
        elif op == "del_all":
            s.del_activations()
            available = [False] * 3
        elif op == "del_set":
            s.del_activation()
            set_available = False
        elif op == "del_stacked":
            s.del_stacked_activations()
            stacked = False
        elif op.startswith("fit") or op == "keep2":
            d = op[-1]
            xs, y = ref.columns(*DATA[d]), target(k, d)
            if op == "keep2":
                s.eval(y, xs, keep_new_activations=True)
            else:
                s.fit(y, xs)
                fitted = d
            held, available = d, [True] * 3
            set_available, set_bits, stacked = True, orof(d), stack
            known = None
        elif op == "eval1":
            if not all(available) or not set_available:
                continue  # unspecified: needs the activations of the training set, or keep_new_activations
            s.eval(target(k, "1"), ref.columns(*DATA["1"]))
            known = None
        elif op == "sort":
            s.sort("coverage", reverse=True)
            order = [rules.index(r) for r in s.rules]
            cov = [rules[i].coverage for i in order]
            ctx.ensure(cov == sorted(cov, reverse=True), f"{what}: order {order}, coverages {cov}")
        elif op == "predict":
            want = [(([int(v) for v in NEW[:, i]]), model(k, fitted, i)["prediction"]) for i in range(3)]
            want = ref.predict_regression(want) if k == "reg" else ref.predict_classification(want)
            ctx.eq(ref.vals(s.predict(NEW)), want, f"{what}: prediction on new data")
            for i in range(3):
                ctx.eq(ref.vals(rules[i].predict(NEW)), ref.vector([int(v) for v in NEW[:, i]], model(k, fitted, i)["prediction"]), f"{what}: prediction of rule {i}")
            ctx.ensure(s.fit(target(k, fitted)) == [], f"{what}: rules dropped by a fit without features of rules fitted already")
        ctx.step()
        for i, r in enumerate(rules):
            want = model(k, fitted, i)
            want["coverage"] = sum(DATA[held][i]) / len(DATA[held][i])
            if known:
                want["criterion"], want["test_set_size"] = known[i]
            check_rule(ctx, r, want, list(DATA[held][i]) if available[i] else None, f"{what}: rule {i}")
            ctx.eq(r.nones, sum(DATA[held][i]), f"{what}: rule {i}: number of activated points")
        ctx.ensure([id(r) for r in s.rules] == [id(rules[i]) for i in order], f"{what}: rules")
        ctx.eq(None if s.activation is None else [int(v) for v in s.activation], set_bits if set_available else None, f"{what}: activation of the set")
        ctx.ensure(s.activation_available is set_available, f"{what}: activation_available of the set is {s.activation_available}")
        ctx.eq(s.ruleset_coverage, sum(set_bits) / len(set_bits), f"{what}: coverage of the set")
        if stacked:
            st = s.stacked_activations
            ctx.ensure(st is not None, f"{what}: stacked activations are gone")
            ctx.eq([[int(v) for v in st.iloc[:, j]] for j in range(3)], [list(DATA[held][i]) for i in order], f"{what}: stacked activations")
        else:
            ctx.ensure(s.stacked_activations is None, f"{what}: stacked activations are {s.stacked_activations}")
        df = s.to_df()
        ctx.eq(float(df.iloc[3, 0]), sum(set_bits) / len(set_bits), f"{what}: coverage of the set in the data frame")
        ctx.eq([float(v) for v in df["coverage"].iloc[:3]], [sum(DATA[held][i]) / len(DATA[held][i]) for i in order], f"{what}: coverages in the data frame")
        ctx.state(c["values"], c["mode"], c["store"], c["ops"][:n + 1])
    files = len(list(ctx.vectors.iterdir()))
    ctx.outcome("files" if files else "no file")


def orof(d):
    return [int(any(v)) for v in zip(*DATA[d])]
