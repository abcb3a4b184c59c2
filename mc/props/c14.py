"""C14: a rule set's activation is always the OR of its rules' activations."""
import itertools

import numpy as np
import pandas as pd

from mc import cond, ref, vec

PROPERTY = "C14"
# activations of the six rules on the data sets, two of which have the same length
D = {
    "1": ([0, 1, 1, 0, 0, 0], [0, 0, 1, 1, 0, 0], [1, 0, 0, 0, 0, 1], [0, 0, 0, 1, 0, 1], [0] * 6, [0, 1, 1, 1, 0, 1]),
    "2": ([1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 0], [1, 0, 1, 0], [0, 1, 1, 0], [0, 0, 0, 1]),
    "3": ([0, 0, 0, 0, 1, 0], [1, 0, 0, 0, 0, 0], [0, 0, 1, 0, 0, 0], [0] * 6, [1, 1, 0, 1, 1, 1], [0, 0, 1, 0, 1, 0]),
}
Y = {"1": [4, 1, -2, 8, 0.5, 1], "2": [-4, 6, 1, 2], "3": [2, 2, -1, 0.25, 3, -5]}
OPS = (
    "append0", "append1", "append2", "append4", "iadd3", "iaddset", "iaddset_same", "addrule5", "addset", "slice", "reverse", "sort", "sort_coverage", "assign",
    "assign_reversed", "assign_empty", "assign_none", "fit1", "fit2", "fit3", "refit", "eval2", "keep1", "keep2", "keep3", "calc2", "calc3", "wrong_type", "wrong_length", "predict",
)
STARTS = ((), (0, 3), (2, 1, 5))
DEPTH = {"quick": 2, "thorough": 3}
BOUNDS = {
    t: f"all histories of {DEPTH[t]} operations among {len(OPS)} (and of {DEPTH[t] + 1} with stacked activations kept in memory, looked at only at the end) on rule sets of 0, 2 or 3 fitted rules, or of unfitted rules then fitted, for both types of "
    "rules, with and without stacked activations, stacked fit and file storage; all sets of activations of 3 rules on 3 observations; up to 300 "
    "rules; lengths around 2^8 and 2^16"
    for t in DEPTH
}


def cases(tier):
    for start in STARTS:
        for stack in (False, True):
            for ops in itertools.product(OPS, repeat=DEPTH[tier] + 1):
                if tier == "quick" and (len(start) != 2 or not stack):
                    continue
                yield {"kind": "history", "start": list(start), "stack": stack, "sfit": len(start) != 2, "local": False, "cls": "RegressionRule", "ops": list(ops), "unread": True}
    for start, stack, sfit, local, cls in itertools.product(STARTS, (False, True), (False, True), (False, True), ("RegressionRule", "ClassificationRule")):
        for ops in itertools.product(OPS, repeat=DEPTH[tier]):
            if tier == "quick" and ((local and not stack) or (cls == "ClassificationRule" and (stack != sfit or local))):
                continue
            yield {"kind": "history", "start": list(start), "stack": stack, "sfit": sfit, "local": local, "cls": cls, "ops": list(ops)}
    for stack, sfit in itertools.product((False, True), repeat=2):
        for ops in itertools.product(OPS, repeat=2):
            yield {"kind": "unfitted", "stack": stack, "sfit": sfit, "ops": list(ops)}
    for n in (1, 2, 3):
        for stack in (False, True):
            yield {"kind": "activations", "n": n, "stack": stack}
    for n in (2, 3, 8, 31, 32, 33, 100, 255, 256, 257, 300):
        yield {"kind": "many", "n": n}
    for n in (255, 256, 257, 65535, 65536, 65537):
        yield {"kind": "long", "n": n}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def features(d):
    return ref.columns(*D[d])


def make(cls, k):
    import ruleskit
    from ruleskit import HyperrectangleCondition as H

    cls = getattr(ruleskit, cls)
    if k == 2:  # two features, the second one always satisfied
        return cls(H(features_indexes=[2, 0], bmins=[1, -1], bmaxs=[1, 1], features_names=["X_2", "X_0"]))
    return ref.bit_rule(cls, k)


def orof(acts):
    return [int(any(v)) for v in zip(*acts)]


def verify(ctx, s, rules, acts, what):
    """rules: the expected rule objects, in order; acts: {id(rule): bits or None}."""
    got = list(s.rules)
    ctx.ensure(len(got) == len(rules) and all(a is b for a, b in zip(got, rules)), lambda: f"{what}: rules are {[str(r.condition) for r in got]}, expected {[str(r.condition) for r in rules]}")
    if not rules:
        ctx.ensure(s.activation is None or len(s.activation) == 0, f"{what}: an empty rule set has activation {s.activation}")
        return
    bits = [acts[id(r)] for r in rules]
    for r, b in zip(rules, bits):
        ctx.ensure(ref.bits_of(r) == b, f"{what}: rule {r.condition} has activation {ref.bits_of(r)}, expected {b}")
    if any(b is None for b in bits):
        return
    want = orof(bits)
    ctx.ensure(s.activation is not None and [int(v) for v in s.activation] == want, lambda: f"{what}: activation {s.activation}, expected {want}")
    ctx.eq(s.ruleset_coverage, sum(want) / len(want), f"{what}: coverage")
    ctx.ensure(s.activation_available, f"{what}: activation not available")
    st = s.stacked_activations
    if s.stack_activation:
        ctx.ensure(st is not None and s.stacked_activations_available, f"{what}: no stacked activations")
    if st is not None:
        cols = [str(r.condition) for r in rules]
        ctx.ensure(list(st.columns) == cols, lambda: f"{what}: stacked columns {list(st.columns)}, expected {cols}")
        ctx.ensure(st.shape == (len(want), len(rules)) and st.values.T.tolist() == bits, lambda: f"{what}: stacked activations {st.values.T.tolist()}, expected {bits}")
        ctx.ensure(list(st.index) == list(range(len(want))), f"{what}: stacked rows {list(st.index)}")


def snapshot(s):
    st = s.stacked_activations
    return (
        [id(r) for r in s.rules], None if s.activation is None else [int(v) for v in s.activation], s.ruleset_coverage,
        None if st is None else (list(st.columns), st.values.tolist()), sorted(s.features_names), sorted(map(int, s.features_indexes)),
        s.stack_activation, [repr(ref.observe(r)) for r in s.rules],
    )


def pure(ctx, s, rules, what, full=True):
    """Evaluating on new data gives the OR of the rules' evaluations and changes nothing."""
    if not rules:
        return
    before = snapshot(s)
    for d in D if full else "2":
        xs = features(d)
        want = orof([D[d][index(r)] for r in rules])
        for data in ((xs,) if d == "1" else (xs, pd.DataFrame(xs, columns=[f"X_{k}" for k in range(6)])[["X_3", "X_2", "X_1", "X_0", "X_5", "X_4"]])):
            got = s.evaluate(data)
            ctx.ensure([int(v) for v in got.raw] == want, lambda: f"{what}: evaluated on data {d}: {got.raw}, expected {want}")
            ctx.step()
        if full and d != "1":
            functions(ctx, s, rules, [list(D[d][index(r)]) for r in rules], what, data)
    if full and all(r.activation_available for r in rules):
        functions(ctx, s, rules, [ref.bits_of(r) for r in rules], what)
    now = snapshot(s)
    ctx.ensure(now == before, lambda: f"{what}: evaluating changed the rule set: {before} to {now}")


def functions(ctx, s, rules, bits, what, xs=None):
    """The functions that evaluate activations, from data or from those of the rules, and set nothing."""
    names = [str(r.condition) for r in rules]
    if len(set(names)) < len(names) or len({len(b) for b in bits}) > 1:
        return
    got = s.evaluate_self_activation(xs)
    act, nones = s.evaluate_self_activation(xs, return_nones=True)
    for a in (got, act):
        ctx.ensure([int(v) for v in a.raw] == orof(bits), lambda: f"{what}: evaluate_self_activation gives {a.raw}, expected {orof(bits)}")
    ctx.ensure(list(nones.index) == names and [int(v) for v in nones] == [sum(b) for b in bits], lambda: f"{what}: numbers of activated points {dict(nones)}")
    st = s.evaluate_stacked_activations(xs)
    ctx.ensure(list(st.columns) == names and st.values.T.tolist() == bits, lambda: f"{what}: evaluate_stacked_activations gives {st}, expected {bits}")
    ctx.step(3)


def index(r):
    return max(r.features_indexes)


def history(ctx, c, unfitted=False):
    import ruleskit
    from ruleskit import Rule, RuleSet

    Rule.LOCAL_ACTIVATION = c["local"]
    RuleSet.STACKED_FIT = c["sfit"]
    other_cls = "ClassificationRule" if c["cls"] == "RegressionRule" else "RegressionRule"
    pool = [make(c["cls"], k) for k in range(6)]
    extra = {k: make(c["cls"], k) for k in (4, 5)}  # equal rules, other objects
    acts = {}
    everything = pool + list(extra.values())
    for r in everything:
        if not unfitted:
            r.fit(np.array(Y["1"], dtype=float), features("1"))
        acts[id(r)] = None if unfitted else D["1"][index(r)]
    fitted = {id(r): None if unfitted else "1" for r in everything}
    rules = [pool[k] for k in c["start"]]
    s = RuleSet(list(rules), stack_activation=c["stack"])
    verify(ctx, s, rules, acts, "at the beginning")
    done = []
    for op in c["ops"]:
        done.append(op)
        what = f"after {done}"

        def has(r):
            return any(r == x for x in rules)

        def fits(rs):
            lengths = {len(acts[id(r)]) for r in rules + list(rs) if acts[id(r)] is not None}
            mixed = len({acts[id(r)] is None for r in rules + list(rs)}) > 1
            return None if mixed else len(lengths) <= 1

        if op.startswith(("append", "iadd3", "addrule")):
            r = pool[int(op[-1])]
            if has(r) or fits([r]) is None:
                continue
            if not fits([r]):
                before = snapshot(s)
                ctx.raises(lambda: s.append(r), f"{what}: adding a rule of another length")
                ctx.ensure(snapshot(s) == before, f"{what}: a failed addition changed the rule set")
                continue
            if op.startswith("append"):
                s.append(r)
                rules = rules + [r]
            elif op == "iadd3":
                t = s
                s += r
                ctx.ensure(s is t, f"{what}: += returned another rule set")
                rules = rules + [r]
            else:
                before, t = snapshot(s), s
                s = s + r
                ctx.ensure(snapshot(t) == before, f"{what}: + changed its operand")
                ctx.ensure(s is not t, f"{what}: + returned its operand")
                rules = rules + [r]
        elif op.startswith("iaddset"):
            rs = [pool[3], pool[1]]
            if any(has(r) for r in rs) or not fits(rs):
                continue
            o = RuleSet(rs, stack_activation=s.stack_activation if op == "iaddset_same" else not s.stack_activation)
            before = snapshot(o)
            s += o
            ctx.ensure(snapshot(o) == before, f"{what}: += changed the added rule set")
            rules = rules + rs
        elif op == "addset":
            rs = [pool[0], extra[5]]
            if not fits(rs):
                continue
            o = RuleSet(rs, stack_activation=s.stack_activation)
            before = snapshot(s), snapshot(o)
            t = s
            s = s + o
            ctx.ensure((snapshot(t), snapshot(o)) == before, f"{what}: + changed its operands")
            expected = []
            for r in rules + rs:
                if r not in expected:
                    expected.append(r)
            ctx.ensure(len(s.rules) == len(expected) and all(r in s.rules for r in expected), lambda: f"{what}: rules {[str(r.condition) for r in s.rules]}")
            rules = list(s.rules)
            ctx.ensure(all(id(r) in acts for r in rules), f"{what}: unknown rule objects")
        elif op in ("slice", "reverse"):
            t, before = s, snapshot(s)
            s = s[1:] if op == "slice" else s[::-1]
            ctx.ensure(snapshot(t) == before, f"{what}: slicing changed the rule set")
            rules = rules[1:] if op == "slice" else rules[::-1]
        elif op in ("sort", "sort_coverage"):
            if any(acts[id(r)] is None for r in rules):
                continue
            s.sort() if op == "sort" else s.sort("coverage", reverse=True)
            ctx.ensure(sorted(map(id, s.rules)) == sorted(map(id, rules)), f"{what}: sorting changed the rules")
            rules = list(s.rules)
        elif op == "assign":
            rs = [pool[3], pool[1], pool[4]]
            if len({len(acts[id(r)]) if acts[id(r)] else 0 for r in rs}) > 1:
                continue
            s.rules = list(rs)
            rules = rs
        elif op in ("assign_empty", "assign_none"):
            s.rules = [] if op == "assign_empty" else None
            rules = []
        elif op == "assign_reversed":
            s.rules = list(rules[::-1])
            rules = rules[::-1]
        elif op in ("fit1", "fit2", "fit3", "keep1", "keep2", "keep3", "eval2", "calc2", "calc3", "predict"):
            if not rules:
                continue
            d = op[-1] if op[-1] in D else "2"
            xs, y = features(d), np.array(Y[d], dtype=float)
            if op.startswith("fit"):
                dropped = s.fit(y, xs)
                ctx.ensure(dropped == [], f"{what}: dropped {dropped}")
                for r in rules:
                    fitted[id(r)] = d
            elif op.startswith("calc"):
                s.calc_activation(xs)
                for r in rules:
                    fitted[id(r)] = fitted[id(r)] and "?"
            else:
                if any(not fitted[id(r)] for r in rules):
                    continue
                if op.startswith("keep"):
                    s.eval(y, xs, keep_new_activations=True)
                elif op == "predict":
                    s.predict(xs)
                else:
                    s.eval(y, xs)
            if op not in ("eval2", "predict"):
                for r in rules:
                    acts[id(r)] = D[d][index(r)]
        elif op == "refit":
            if not rules or any(acts[id(r)] is None for r in rules):
                continue
            s.fit(np.array(Y["1" if len(acts[id(rules[0])]) == 6 else "2"], dtype=float))
            for r in rules:
                fitted[id(r)] = fitted[id(r)] or "?"
        elif op == "wrong_type":
            bad = make(other_cls, 3)
            if not rules:
                continue
            before = snapshot(s)
            for f in (lambda: s.append(bad), lambda: s.__iadd__(bad), lambda: s.__iadd__(RuleSet([bad])), lambda: s.append(3), lambda: s + bad,
                      lambda: s.append(bad, update_activation=False)):
                ctx.raises(f, f"{what}: adding a rule of another type", TypeError)
            ctx.ensure(snapshot(s) == before, f"{what}: a failed addition changed the rule set")
        elif op == "wrong_length":
            bad = make(c["cls"], 4)
            bad.fit(np.arange(9.0), np.ones((9, 6)))
            if not rules or has(bad) or any(acts[id(r)] is None for r in rules):
                continue
            before = snapshot(s)
            for f in (lambda: s.append(bad), lambda: s.__iadd__(bad), lambda: s + bad, lambda: s.__iadd__(RuleSet([bad]))):
                ctx.raises(f, f"{what}: adding a rule of another length")
                ctx.ensure(snapshot(s) == before, lambda: f"{what}: a failed addition changed the rule set")
        else:
            raise KeyError(op)
        ctx.step()
        if not c.get("unread"):
            verify(ctx, s, rules, acts, what)
        ctx.state(tuple(map(index, rules)), tuple(str(acts[id(r)]) for r in rules), s.stack_activation, c["sfit"], c["local"], c["cls"])
    if c.get("unread"):
        verify(ctx, s, rules, acts, f"after {done} (looked at for the first time)")
    pure(ctx, s, rules, f"after {done}", not c.get("unread"))
    verify(ctx, s, rules, acts, f"after {done}, then evaluating")
    ctx.outcome("empty" if not rules else f"{len(rules)} rules")


def unfitted(ctx, c):
    """Rules without activations at first: once fitted, the set is like any other."""
    for ops in ([c["ops"][0], "fit1", c["ops"][1]], c["ops"] + ["fit2"], ["fit1"] + c["ops"]):
        history(ctx, {"start": [0, 3], "local": False, "cls": "RegressionRule", "stack": c["stack"], "sfit": c["sfit"], "ops": ops}, unfitted=True)


def activations(ctx, c):
    """All activations of 3 rules on n observations, in all storage settings."""
    import ruleskit
    from ruleskit import Rule, RuleSet

    n = c["n"]
    for local, st in ((False, ("str", False, False)), (True, ("str", False, False)), (False, ("array", True, False)), (False, ("array", False, True)), (False, ("str", True, True))):
        Rule.LOCAL_ACTIVATION = local
        vec.apply_settings(st)
        for cols in itertools.product(list(vec.all_bits(n)), repeat=3):
            if local and n == 3 and cols[0] > cols[1]:
                continue
            rules = [ref.bit_rule(ruleskit.RegressionRule, k) for k in range(3)]
            xs = ref.columns(*cols)
            s = RuleSet(rules[:2], stack_activation=c["stack"])
            s.append(rules[2])
            s.calc_activation(xs)
            acts = {id(r): list(b) for r, b in zip(rules, cols)}
            verify(ctx, s, rules, acts, f"activations {cols}, {local} {st}")
            s2 = RuleSet(rules[:1], stack_activation=c["stack"])
            s2 += rules[1]
            s2.append(rules[2])
            verify(ctx, s2, rules, acts, f"activations {cols} one by one, {local} {st}")
            functions(ctx, s, rules, [list(b) for b in cols], f"activations {cols}, {local} {st}")
            functions(ctx, s2[:1], rules[:1], [list(b) for b in cols[1:2]], f"activations {cols}, one rule, {local} {st}", ref.columns(cols[1]))
            verify(ctx, s, rules, acts, f"activations {cols}, evaluated, {local} {st}")
            ctx.step(2)
            ctx.state(cols, local, st)
            for r in rules:
                r.del_activation()
            for x in (s, s2):
                x.del_activation()
    ctx.outcome("activations")


def many(ctx, c):
    """n rules, each the only one activated at its observation, or almost."""
    import ruleskit
    from ruleskit import Rule, RuleSet

    n = c["n"]
    for local in (False, True):
        Rule.LOCAL_ACTIVATION = local
        rules = [ref.bit_rule(ruleskit.RegressionRule, k) for k in range(n)]
        xs = np.eye(n + 3)[:, :n]
        s = RuleSet(rules, stack_activation=True)
        s.fit(np.arange(n + 3.0), xs)
        acts = {id(r): xs[:, k].astype(int).tolist() for k, r in enumerate(rules)}
        verify(ctx, s, rules, acts, f"{n} rules")
        got = s.evaluate(xs).raw
        ctx.ensure([int(v) for v in got] == [1] * n + [0] * 3, f"{n} rules: evaluated {got}")
        h = s[: n // 2 + 1]
        verify(ctx, h, rules[: n // 2 + 1], acts, f"{n} rules, first half")
        ctx.step(3)
        ctx.state(n, local)
    ctx.outcome("many rules")


def long(ctx, c):
    import ruleskit
    from ruleskit import Rule, RuleSet

    n = c["n"]
    for local, pair in itertools.product((False, True), itertools.combinations(("first", "last", "blocks7", "middle", "zeros", "bruijn"), 2)):
        Rule.LOCAL_ACTIVATION = local
        cols = [vec.structured(s, n) for s in pair]
        rules = [ref.bit_rule(ruleskit.RegressionRule, k) for k in range(2)]
        s = RuleSet(rules[:1], stack_activation=False)
        s.append(rules[1])
        s.calc_activation(ref.columns(*cols))
        want = np.array(cols[0]) | np.array(cols[1])
        ctx.ensure(np.array_equal(s.activation, want), f"{n} observations, {pair}: activation")
        ctx.eq(s.ruleset_coverage, want.mean(), f"{n} observations, {pair}: coverage")
        ctx.step()
        ctx.state(n, local, pair)
        for r in rules + [s]:
            r.del_activation()
    ctx.outcome("long")
