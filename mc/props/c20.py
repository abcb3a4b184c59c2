"""C20: a rule set is a homogeneous ordered collection, and its operations keep content."""
import itertools

import numpy as np

from mc import ref

PROPERTY = "C20"
INDEX = {"a": 2, "b": 0, "c": 1}
# features, bmins, bmaxs of the rules of the pool
POOL = (
    (("a",), (0,), (1,)),
    (("a",), (0,), (2,)),
    (("b",), (1,), (3,)),
    (("b", "a"), (0, 0), (2, 3)),
    (("b", "c"), (-1, 0), (9, 1)),
    (("a", "b", "c"), (0, 0, 0), (3, 3, 3)),
    (("a",), (-1,), (1,)),
)
XS = np.array([[1, 0, 0], [3, 1, 1], [0, 5, 2], [2, 1, 0], [9, 9, 9]], dtype=float)  # columns b, c, a
YR, YC = [4.0, -2.0, 1.0, 4.0, 0.5], [1, 2, 2, 1, 2]
OPS = (
    "append0", "append1", "append3", "append5", "iadd2", "iadd6", "iaddset", "iaddself", "iaddempty", "add4", "addset", "tail", "init", "reverse", "every2", "sort", "sort_reverse",
    "sort_prediction", "sort_coverage_reverse", "assign", "assign_reversed", "assign_none", "bad_type", "bad_object", "bad_set", "bad_assign", "bad_sort",
)
MANY = tuple(range(5, 34)) + (64, 65, 100)
DEPTH = {"quick": 3, "thorough": 4}
BOUNDS = {
    t: f"all histories of {DEPTH[t]} operations among {len(OPS)} from 2 starting sets (and of {DEPTH[t] - 1} from 5), for rules of both types, with and without activations and stacked activations; sorting from "
    "every permutation of all 5-subsets of 7 rules; all slices of sets of up to 5 rules; membership, equality and hash for all pairs of subsets of 5 rules; all lists of up to "
    "4 rules or missing rules in the constructor; duplicates detection for all lists of up to 3 rules; features of all subsets; " + f"{len(MANY)} sizes of 5 to 100 rules; " + "sorts refused because of one value, in all orders of 2 to 6 rules; sets emptied in 3 ways, then given rules of both types"
    for t in DEPTH
}
ASSUMPTIONS = ["the order of the union of two rule sets (+ between rule sets) is not documented: its content is checked", "names of features are identifiers"]


def cases(tier):
    d = DEPTH[tier]
    for start in ((), (3, 0), (1, 5, 2)):
        for cls in ("RegressionRule", "ClassificationRule"):
            for mode in ("plain", "fitted", "stacked"):
                for ops in itertools.product(OPS, repeat=d - 1):
                    yield {"kind": "history", "start": list(start), "cls": cls, "mode": mode, "ops": list(ops)}
    for start, mode in (((3, 0), "stacked"), ((), "plain")) if tier == "quick" else itertools.product(((), (3, 0), (1, 5, 2)), ("plain", "fitted", "stacked")):
        for first in itertools.product(OPS, repeat=d - 1):
            yield {"kind": "histories", "start": list(start), "cls": "RegressionRule", "mode": mode, "ops": list(first)}
    for sub in itertools.combinations(range(7), 5):
        yield {"kind": "sorting", "rules": list(sub)}
    for n in range(6):
        yield {"kind": "slices", "n": n}
    for mask in range(32):
        yield {"kind": "equality", "mask": mask}
    for n in range(5):
        for cls in ("RegressionRule", "ClassificationRule"):
            yield {"kind": "constructor", "n": n, "cls": cls}
    yield {"kind": "duplicates"}
    for mask in range(128):
        yield {"kind": "features", "mask": mask}
    yield {"kind": "membership"}
    for n in range(2, 7):
        yield {"kind": "unsortable", "n": n}
    for n in MANY:
        yield {"kind": "many", "n": n}
    for cls in ("RegressionRule", "ClassificationRule"):
        for n in (1, 2, 3):
            yield {"kind": "emptied", "cls": cls, "n": n}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def rule(cls, k, fit=True, y=None, variant=0):
    """variant 1: floating bounds; 2: features given in the other order; 4: and kept so."""
    import ruleskit
    from ruleskit import HyperrectangleCondition as H

    cls = getattr(ruleskit, cls)
    f, a, b = (list(v) for v in POOL[k])
    if variant & 1:
        a, b = [float(v) for v in a], [float(v) for v in b]
    if variant & 6:
        f, a, b = f[::-1], a[::-1], b[::-1]
    r = cls(H(features_indexes=[INDEX[n] for n in f], bmins=a, bmaxs=b, features_names=f, sort=not variant & 4))
    if fit:
        y = y or (YR if cls.__name__ == "RegressionRule" else YC)
        r.fit(y=np.array(y), xs=XS)
    return r


def other(cls):
    return "ClassificationRule" if cls == "RegressionRule" else "RegressionRule"


def ident(rs):
    return [id(r) for r in rs]


def names(rs):
    return [str(r.condition) for r in rs]


def snapshot(s):
    st = s.stacked_activations
    return (
        ident(s.rules), sorted(s.features_names), sorted(map(int, s.features_indexes)), s.stack_activation, getattr(s, "_rule_type", None) and s.rule_type,
        None if s.activation is None else [int(v) for v in s.activation], None if st is None else (list(st.columns), st.values.tolist()),
        [repr(ref.observe(r)) for r in s.rules],
    )


def verify(ctx, s, rules, what, cls=None):
    got = list(s.rules)
    ctx.ensure(ident(got) == ident(rules), lambda: f"{what}: rules are {names(got)}, expected {names(rules)}")
    ctx.ensure(ident(s) == ident(rules) and len(s) == len(rules), f"{what}: iteration gives {names(s)}, length {len(s)}, expected {names(rules)}")
    for i in range(len(rules)):
        ctx.ensure(s[i] is rules[i] and s[i - len(rules)] is rules[i], f"{what}: rule {i} is {s[i]}")
    fn = {n for r in rules for n in r.features_names}
    ctx.ensure(len(s.features_names) == len(fn) and set(s.features_names) == fn, f"{what}: features names {s.features_names}, expected {fn}")
    fi = {INDEX[n] for n in fn}
    ctx.ensure(len(s.features_indexes) == len(fi) and set(s.features_indexes) == fi, f"{what}: features indexes {s.features_indexes}, expected {fi}")
    want = {}
    for r in rules:
        for n in r.features_names:
            want[n] = want.get(n, 0) + 1
    count = s.get_features_count()
    ctx.ensure(len(count) == len(want) and dict(count) == want, f"{what}: features count {count}, expected {want}")
    ctx.ensure([v for _, v in count] == sorted(want.values(), reverse=True), f"{what}: features count {count} is not ordered")
    if rules:
        ctx.ensure(s.rule_type is type(rules[0]), f"{what}: rule type {s.rule_type}")
        for r in rules:
            ctx.ensure(r in s, f"{what}: {r.condition} is not found in the rule set")


def sort_key(reverse):
    def lists(rules):
        out = []
        for n in sorted({len(r) for r in rules}):
            for f in sorted({tuple(r.features_names) for r in rules if len(r) == n}, reverse=reverse):
                out += sorted((r for r in rules if tuple(r.features_names) == f), key=lambda r: list(r.bmins) + list(r.bmaxs))
        return out

    return lists


def histories(ctx, c):
    for op in OPS:
        history(ctx, dict(c, ops=c["ops"] + [op]))


def history(ctx, c):
    from ruleskit import RuleSet

    fit = c["mode"] != "plain"
    cls = c["cls"]
    pool = [rule(cls, k, fit) for k in range(7)]
    alien = rule(other(cls), 0, fit)
    rules = [pool[k] for k in c["start"]]
    s = RuleSet(list(rules), stack_activation=c["mode"] == "stacked")
    verify(ctx, s, rules, "at the beginning")
    done = []
    for op in c["ops"]:
        done.append(op)
        what = f"{c['mode']} from {c['start']}, after {done}"
        before, t = snapshot(s), s
        dup = c["mode"] == "stacked"  # the stacked activations have one column per rule: distinct rules only
        if op.startswith(("append", "iadd", "add")) and op[-1].isdigit():
            r = pool[int(op[-1])]
            if dup and any(r is x for x in rules):
                continue
            if op.startswith("append"):
                ctx.ensure(s.append(r) is None, f"{what}: append returned something")
            elif op.startswith("iadd"):
                s += r
                ctx.ensure(s is t, f"{what}: += returned another rule set")
            else:
                s = s + r
                ctx.ensure(s is not t and snapshot(t) == before, f"{what}: + changed its operand")
            rules = rules + [r]
        elif op == "iaddset":
            if dup and any(pool[k] is x for x in rules for k in (6, 4)):
                continue
            o = RuleSet([pool[6], pool[4]], stack_activation=s.stack_activation)
            ob = snapshot(o)
            s += o
            ctx.ensure(s is t and snapshot(o) == ob, f"{what}: += changed the added rule set")
            rules = rules + [pool[6], pool[4]]
        elif op == "iaddself":
            if dup:
                continue
            if len(rules) > 8:
                continue
            s += s
            rules = rules + rules
        elif op == "iaddempty":
            s += RuleSet(stack_activation=s.stack_activation)
        elif op == "addset":
            o = RuleSet([pool[0], pool[2]], stack_activation=s.stack_activation)
            ob = snapshot(o)
            s = s + o
            ctx.ensure(snapshot(t) == before and snapshot(o) == ob, f"{what}: + changed an operand")
            want = {str(r.condition) for r in rules + [pool[0], pool[2]]}
            ctx.ensure(sorted(names(s)) == sorted(want), f"{what}: rules are {names(s)}, expected {want}")
            rules = list(s.rules)
        elif op in ("tail", "init", "reverse", "every2"):
            sl = {"tail": slice(1, None), "init": slice(None, -1), "reverse": slice(None, None, -1), "every2": slice(None, None, 2)}[op]
            s = s[sl]
            ctx.ensure(snapshot(t) == before, f"{what}: slicing changed the rule set")
            ctx.ensure(isinstance(s, RuleSet), f"{what}: a slice is a {type(s)}")
            rules = rules[sl]
        elif op in ("sort", "sort_reverse"):
            s.sort(reverse=op != "sort")
            rules = sort_key(op != "sort")(rules)
        elif op in ("sort_prediction", "sort_coverage_reverse"):
            if not fit:
                continue
            attr, rev = op.split("_")[1], op.endswith("reverse")
            s.sort(criterion=attr, reverse=rev)
            rules = sorted(rules, key=lambda r: getattr(r, attr), reverse=rev)
        elif op == "assign":
            rules = [pool[5], pool[0], pool[4]]
            s.rules = list(rules)
        elif op == "assign_reversed":
            rules = rules[::-1]
            s.rules = list(rules)
        elif op == "assign_none":
            rules = []
            s.rules = None
        elif op == "bad_sort":
            if rules:
                ctx.raises(lambda: s.sort(criterion="no_such_thing"), f"{what}: sort by an unknown attribute")
                ctx.ensure(snapshot(s) == before, f"{what}: a refused sort changed the rule set")
        elif op == "bad_object":
            for x in ("a rule", 3, None, [pool[0]]):
                ctx.raises(lambda: s.append(x), f"{what}: append of {x!r}", TypeError)
            ctx.raises(lambda: RuleSet([pool[0], "a rule"]), f"{what}: constructor with a string", TypeError)
            ctx.ensure(snapshot(s) == before, f"{what}: a refused object changed the rule set")
        elif op == "bad_assign":
            ctx.raises(lambda: setattr(s, "rules", [pool[0], alien]), f"{what}: assignment of mixed rules", TypeError)
            ctx.raises(lambda: setattr(s, "rules", [pool[0], 3]), f"{what}: assignment of a number", TypeError)
            ctx.ensure(snapshot(s) == before, f"{what}: a refused assignment changed the rule set")
        elif rules:  # bad_type, bad_set
            if op == "bad_type":
                tries = {"append": lambda: s.append(alien), "+=": lambda: s.__iadd__(alien), "+": lambda: s + alien}
            else:
                tries = {"+=": lambda: s.__iadd__(RuleSet([alien])), "+": lambda: s + RuleSet([alien])}
            for k, f in tries.items():
                ctx.raises(f, f"{what}: {k} with a {other(cls)}", TypeError)
                ctx.ensure(snapshot(s) == before, f"{what}: a refused {k} changed the rule set")
        ctx.step()
        verify(ctx, s, rules, what)
    ctx.state(c["mode"], cls, names(rules))
    ctx.outcome(f"{len(rules)} rules")


def emptied(ctx, c):
    """A set that lost all its rules (bad ones, or assigned) takes rules of one type only, which is its rule type."""
    import json

    from ruleskit import RuleSet

    cls, n = c["cls"], c["n"]
    y = YR if cls == "RegressionRule" else YC
    path = ctx.files / "strict.json"
    path.write_text(json.dumps({"coverage": {"min": 2}}))
    for how, stacked, stack in itertools.product(("fit", "assigned", "never filled"), (False, True), (False, True)):
        RuleSet.STACKED_FIT = stacked
        for order in itertools.permutations(("own", "other", "own set", "other set"), 2):
            s = RuleSet([] if how == "never filled" else [rule(cls, k, False) for k in range(n)], stack_activation=stack)
            if how == "fit":
                for r in s:
                    r.set_thresholds(path)
                bad = s.fit(np.array(y), XS)
                ctx.ensure(len(bad) == n and len(s) == 0, f"{n} bad rules: {len(s)} left")
            elif how == "assigned":
                s.rules = []
            done = []
            for k, o in enumerate(order):
                done.append(o)
                add = rule(cls if o.startswith("own") else other(cls), k + 3)
                before = snapshot(s)
                what = f"set emptied by {how} of {n} {cls}, stacked {stacked} {stack}, after adding {done}"
                try:
                    if "set" in o:
                        s += RuleSet([add], stack_activation=stack)
                    else:
                        s.append(add)
                except TypeError:
                    ctx.ensure(len(s) == 0 or type(add) is not type(s[0]), f"{what}: refused a {type(add).__name__}")
                    ctx.ensure(snapshot(s) == before, f"{what}: a refused rule changed the set")
                    ctx.outcome("refused")
                else:
                    ctx.ensure(len({type(r) for r in s}) == 1 and s.rule_type is type(s[0]), lambda: f"{what}: rules are {[type(r).__name__ for r in s]}, rule type {s.rule_type}")
                    verify(ctx, s, list(s.rules), what, type(s[0]).__name__)
                    ctx.outcome("accepted")
                ctx.step()
            ctx.state(c, how, stacked, stack, order)
    RuleSet.STACKED_FIT = False


def sorting(ctx, c):
    from ruleskit import RuleSet

    rules = [rule("RegressionRule", k) for k in c["rules"]]
    for perm in itertools.permutations(rules):
        for rev in (False, True):
            s = RuleSet(list(perm), stack_activation=True)
            s.sort(reverse=rev)
            want = sort_key(rev)(rules)
            verify(ctx, s, want, f"sort(reverse={rev}) of {names(perm)}")
            ctx.ensure(list(s.stacked_activations.columns) == names(want), f"sort of {names(perm)}: stacked activations are {list(s.stacked_activations.columns)}")
            for attr in ("prediction", "coverage"):
                s = RuleSet(list(perm))
                s.sort(criterion=attr, reverse=rev)
                want = sorted(perm, key=lambda r: getattr(r, attr), reverse=rev)
                ctx.ensure(ident(s) == ident(want), lambda: f"sort({attr}, reverse={rev}) of {names(perm)} gives {names(s)}")
            ctx.step(3)
        ctx.state(names(perm))
    ctx.outcome("sorted")


def slices(ctx, c):
    from ruleskit import RuleSet

    rules = [rule("RegressionRule", k) for k in range(c["n"])]
    s = RuleSet(list(rules))
    ends = [None] + list(range(-6, 7))
    before = snapshot(s)
    for a, b, d in itertools.product(ends, ends, (None, 1, 2, 3, -1, -2)):
        verify(ctx, s[a:b:d], rules[a:b:d], f"[{a}:{b}:{d}] of {c['n']} rules")
        ctx.step()
        ctx.state(a, b, d, c["n"])
    for i in (c["n"], c["n"] + 3, -c["n"] - 1):
        ctx.raises(lambda: s[i], f"rule {i} of {c['n']}", IndexError)
    ctx.ensure(snapshot(s) == before, "slicing changed the rule set")
    ctx.outcome("sliced")


def equality(ctx, c):
    from ruleskit import RuleSet

    sub = [k for k in range(5) if c["mask"] >> k & 1]
    a = RuleSet([rule("RegressionRule", k, fit=False) for k in sub])
    for m in range(32):
        o = [k for k in range(5) if m >> k & 1]
        for order in (o, o[::-1]) + ((o + o[:1], o[-1:] + o) if o else ()):
            b = RuleSet([rule("RegressionRule", k, fit=False, variant=1) for k in order])
            ctx.ensure((a == b) is (sub == o), f"equality of sets of rules {sub} and {order}: {a == b}")
            ctx.ensure((a != b) is (sub != o), f"inequality of sets of rules {sub} and {order}: {a != b}")
            if sub == o:
                ctx.ensure(hash(a) == hash(b), f"equal sets of rules {sub} and {order} have other hashes")
            ctx.step()
            ctx.state(sub, order)
    ctx.outcome("compared")


def constructor(ctx, c):
    from ruleskit import Rule, RuleSet

    pool = [rule(c["cls"], 0), rule(c["cls"], 3), None, rule(other(c["cls"]), 2)]
    for idx in itertools.product(range(4), repeat=c["n"]):
        given = [pool[i] for i in idx]
        copy = list(given)
        for stack in (False, True):
            if stack and len(set(idx)) < len(idx):
                continue
            real = [r for r in given if r is not None]
            what = f"rule set of {[r and str(r.condition) for r in given]}"
            ctx.step()
            if len({type(r) for r in real}) > 1:
                ctx.raises(lambda: RuleSet(given, stack_activation=stack), what, TypeError)
                continue
            s = RuleSet(given, stack_activation=stack)
            verify(ctx, s, real, what)
            s.append(rule(c["cls"], 5)) if not real or type(real[0]).__name__ == c["cls"] else None
            ctx.ensure(len(given) == len(copy) and all(x is y for x, y in zip(given, copy)), f"{what}: the given list was changed")
            ctx.state(idx, stack)
    s = RuleSet(None)
    verify(ctx, s, [], "RuleSet(None)")
    ctx.raises(lambda: s.rule_type, "type of the rules of an empty set", ValueError)
    ctx.raises(lambda: setattr(s, "rule_type", int), "a rule type that is not one", TypeError)
    ctx.ensure(isinstance(pool[0], Rule), "")
    ctx.outcome("constructed")


def duplicates(ctx, c):
    from ruleskit import RuleSet

    # (rule of the pool, targets, variant of the text, identity); the last two of each type only look alike
    R = [(0, YR, 0, 0), (0, [1.0, 2.0, 3.0, 4.0, 5.0], 0, 1), (3, YR, 0, 2), (1, YR, 0, 3), (0, YR, 1, 0), (3, YR, 3, 2), (3, YR, 4, 2)]
    C = [(0, YC, 0, 0), (0, [str(v) for v in YC], 0, 1), (3, YC, 0, 2), (0, YC, 1, 0), (0, [float(v) for v in YC], 0, 0), (3, YC, 4, 2)]
    RuleSet.CHECK_DUPLICATED = True
    try:
        for cls, specs in (("RegressionRule", R), ("ClassificationRule", C)):
            for n in range(4):
                for idx in itertools.product(range(len(specs)), repeat=n):
                    rs = [rule(cls, specs[i][0], y=specs[i][1], variant=specs[i][2]) for i in idx]
                    ctx.step()
                    if len({specs[i][3] for i in idx}) < n:
                        ctx.raises(lambda: RuleSet(rs), f"duplicated rules {[str(r) for r in rs]}", ValueError)
                        ctx.outcome("refused")
                    else:
                        verify(ctx, RuleSet(rs), rs, f"rules {[str(r) for r in rs]}, duplicates being looked for")
                        ctx.outcome("accepted")
                    ctx.state(cls, idx)
    finally:
        RuleSet.CHECK_DUPLICATED = False


def features(ctx, c):
    """Feature indexes follow the names when a global list of features is given."""
    from ruleskit import RuleSet

    sub = [k for k in range(7) if c["mask"] >> k & 1]
    table = {"a": 7, "zz": 1, "c": 0, "b": 4}
    rules = [rule("RegressionRule", k) for k in sub]
    s = RuleSet(list(rules))
    verify(ctx, s, rules, f"rules {sub}")
    RuleSet.all_features_indexes = table
    try:
        s = RuleSet(list(rules))
        for r in rules:
            ctx.ensure(list(r.features_indexes) == [table[n] for n in r.features_names], f"rules {sub}: {r.condition} has indexes {r.features_indexes}")
        want = {table[n] for r in rules for n in r.features_names}
        ctx.ensure(set(s.features_indexes) == want and len(s.features_indexes) == len(want), f"rules {sub}: indexes {s.features_indexes}, expected {want}")
        xs = np.zeros((len(XS), 8))
        for n in "abc":
            xs[:, table[n]] = XS[:, INDEX[n]]
        for r in rules:
            ctx.eq(np.asarray(r.evaluate_activation(xs).raw).astype(int).tolist(), ref.bits_of(r), f"{r.condition} on data in the order of the global list")
        ctx.step()
        ctx.state(sub)
    finally:
        RuleSet.all_features_indexes = {}
    ctx.outcome("features")


def membership(ctx, c):
    from ruleskit import RuleSet

    y2 = {"RegressionRule": [1.0, 8.0, -2.0, 5.0, 5.0], "ClassificationRule": [3, 3, 3, 3, 3]}
    for cls in ("RegressionRule", "ClassificationRule"):
        for fit in (False, True):
            for sub in itertools.chain(*(itertools.combinations(range(7), n) for n in range(4))):
                s = RuleSet([rule(cls, k, fit) for k in sub])
                for k, v in itertools.product(range(7), range(5)):
                    r = rule(cls, k, fit, variant=v)
                    ctx.ensure((r in s) is (k in sub), f"rule {k} (variant {v}) in {sub}: {r in s}")
                    ctx.step()
                if fit:
                    for k in sub:
                        r = rule(cls, k, True, y=y2[cls])
                        if ref.na(r.prediction) or any(x == r and x.prediction == r.prediction for x in s):
                            continue
                        ctx.ensure(r not in s, f"a rule with condition {k} and prediction {r.prediction} is said to be in {[(x.condition, x.prediction) for x in s]}")
                ctx.state(cls, fit, sub)
    ctx.outcome("membership")


def many(ctx, c):
    """Sets of many rules: every rule counts, in every operation."""
    import ruleskit
    from ruleskit import HyperrectangleCondition as H, RuleSet

    n = c["n"]
    letters = "abc"
    for cls in ("RegressionRule", "ClassificationRule"):
        def mk(k, hi=None):
            f = [("a",), ("b",), ("a", "c"), ("b", "c"), ("b", "c", "a")][k % 5]
            return getattr(ruleskit, cls)(H(features_indexes=[INDEX[x] for x in f], bmins=[(3 * k) % 7 - 3] * len(f), bmaxs=[k if hi is None else hi] * len(f), features_names=list(f)))

        rules = [mk((7 * k) % n if n % 7 else k) for k in range(n)]
        for k, r in enumerate(rules):
            r._prediction = float((5 * k) % n) if n % 5 else float(-k)
        s = RuleSet(list(rules))
        verify(ctx, s, rules, f"{n} rules")
        t = RuleSet([])
        for r in rules:
            t += r
        verify(ctx, t, rules, f"{n} rules appended")
        # as many features as rules, the k-th one used by rules k, k + 1 and (every third one) k + 2
        wide = [getattr(ruleskit, cls)(H(features_indexes=[k, k + 1] + [k + 2] * (k % 3 == 0), bmins=[0] * (2 + (k % 3 == 0)), bmaxs=[k + 1] * (2 + (k % 3 == 0)))) for k in range(n)]
        count = {}
        for r in wide:
            for f in r.features_names:
                count[f] = count.get(f, 0) + 1
        w = RuleSet(wide)
        got = w.get_features_count()
        ctx.ensure(dict(got) == count and len(got) == len(count), lambda: f"{n} rules: count of features {got}")
        ctx.ensure([v for _, v in got] == sorted(count.values(), reverse=True), lambda: f"{n} rules: order of the count of features {got}")
        ctx.ensure(sorted(w.features_names) == sorted(count), lambda: f"{n} rules: features {w.features_names}")
        ctx.ensure(sorted(w.features_indexes) == sorted({i for r in wide for i in r.features_indexes}), lambda: f"{n} rules: features {w.features_indexes}")
        ctx.ensure(s == t and t == s and hash(s) == hash(t), f"{n} rules appended do not equal the set of them")
        ctx.ensure(RuleSet(rules[::-1]) == s, f"{n} rules reversed do not equal the set of them")
        t += t
        verify(ctx, t, rules + rules, f"{n} rules twice")
        for k in range(n):
            less = RuleSet(rules[:k] + rules[k + 1:])
            ctx.ensure(less != s and s != less, f"{n} rules equal all of them but number {k}")
            x = mk(n + k, hi=1000 + k)
            ctx.ensure(x not in s, f"{x} is found among {n} others")
            ctx.ensure(rules[k] not in less, f"rule {k} is found among the {n - 1} others")
            diff = RuleSet(rules[:k] + [x] + rules[k + 1:])
            ctx.ensure(diff != s and s != diff, f"{n} rules equal a set where rule {k} is another one")
            ctx.step()
        for i, j, st in itertools.product((None, 0, 1, n // 2, -1, n + 3), (None, 1, n // 2, n - 1, -2, n + 3), (1, 2, 3, -1, -2)):
            verify(ctx, s[i:j:st], rules[i:j:st], f"{n} rules, slice {i}:{j}:{st}")
        for cut in (0, 1, n // 2, n - 1, n):
            u = RuleSet(rules[:cut]) + RuleSet(rules[max(cut - 2, 0):])
            ctx.ensure(len(u) == n and sorted(ident(u)) == sorted(ident(rules)), f"union of rules 0 to {cut} and {max(cut - 2, 0)} to {n} has {len(u)} rules")
        for rev in (False, True):
            s = RuleSet(list(rules))
            s.sort(reverse=rev)
            verify(ctx, s, sort_key(rev)(rules), f"{n} rules sorted, reverse={rev}")
            s.sort("prediction", reverse=rev)
            want = sorted(sort_key(rev)(rules), key=lambda r: r.prediction, reverse=rev)
            verify(ctx, s, want, f"{n} rules sorted by prediction, reverse={rev}")
        s.rules = rules[1:]
        verify(ctx, s, rules[1:], f"{n - 1} rules assigned")
        ctx.state("many", cls, n)
    ctx.outcome("many")


def unsortable(ctx, c):
    """A sort that is refused because some values can not be compared leaves the set as it was."""
    from ruleskit import RuleSet

    n = c["n"]
    pool = [rule("RegressionRule", k) for k in range(n)]
    for perm in itertools.permutations(range(n)):
        for bad in range(n):
            for k, r in enumerate(pool):
                r._prediction = float(perm[k]) if k != bad else None
            for stack, reverse in ((False, False), (True, True)) if n < 6 else ((False, False),):
                s = RuleSet(list(pool), stack_activation=stack)
                before = ident(s), None if s.stacked_activations is None else list(s.stacked_activations.columns), s.activation.tolist()
                ctx.raises(lambda: s.sort("prediction", reverse=reverse), f"sorting by {[r._prediction for r in pool]}")
                now = ident(s), None if s.stacked_activations is None else list(s.stacked_activations.columns), s.activation.tolist()
                ctx.ensure(before == now, f"a refused sort by {[r._prediction for r in pool]} changed the order of rules to {names(s)}")
                ctx.step()
        ctx.state("unsortable", perm)
    ctx.outcome("unsortable")
