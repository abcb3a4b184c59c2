"""C11: a fitted classification rule predicts its most frequent activated class."""
import itertools

import numpy as np
import pandas as pd

from mc import cond, ref, vec

PROPERTY = "C11"
CLASSES = {
    "ints": (0, 1, 2),
    "bools": (False, True, True),
    "signed": (-1, 3, 10),
    "floats": (0.5, -2.25, 1e6),
    "letters": ("b", "a", "c"),
    "words": ("a rather long class name, longer than thirty-two characters", "B", "a rather long class name, longer than thirty-two characters."),
    "digits": ("10", "9", "1.5"),
    "accents": ("é", "z", "Z"),
}
NMAX = {"quick": 5, "thorough": 6}
BOUNDS = {
    t: f"all activations x all targets over 3 classes of up to {NMAX[t]} observations, for {len(CLASSES)} families of classes (integers, floats, strings), "
    "with evaluation on the same and on other data; all orders of the observations of 6-point samples; all containers of targets x "
    "features x 16 storage settings; histories of fits and evaluations; class counts differing by one among up to 65537 observations"
    for t in NMAX
}
STORES = list(itertools.product((True, False), vec.settings()))


def cases(tier):
    for fam in CLASSES:
        top = NMAX[tier] - (0 if fam in ("ints", "letters") else 1)
        for n in range(1, top + 1):
            for bits in vec.all_bits(n):
                yield {"kind": "small", "classes": fam, "bits": list(bits)}
    for fam in CLASSES:
        for s in range(len(STORES)):
            yield {"kind": "containers", "classes": fam, "store": s}
        for k in range(len(ORDERS)):
            yield {"kind": "orders", "classes": fam, "sample": k}
        for ops in itertools.product(("fit1", "fit2", "fit3", "eval1", "eval2", "keep2", "predict2"), repeat=3 if tier == "quick" else 4):
            if fam in ("ints", "letters") or tier != "quick":
                yield {"kind": "history", "classes": fam, "ops": list(ops)}
        for n in (255, 256, 257, 65536, 65537):
            yield {"kind": "long", "classes": fam, "n": n}
        yield {"kind": "many", "classes": fam}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def prediction(r):
    return ref.plain(r.prediction)


def small(ctx, c):
    from ruleskit import ClassificationRule, Rule

    cls = CLASSES[c["classes"]]
    bits = c["bits"]
    n = len(bits)
    xs = ref.columns(bits)
    Rule.LOCAL_ACTIVATION = n < 4
    test = [1] * n if bits[0] else [1] + [0] * (n - 1)
    for y in itertools.product(cls, repeat=n):
        r = ref.bit_rule(ClassificationRule, 0)
        yy = np.array(y)
        r.fit(yy, xs)
        want = ref.fit_classification(bits, list(y))
        what = f"activation {bits}, targets {list(y)}"
        ref.check_stats(ctx, r, want, what)
        # on the training points, and on others
        r.eval(yy)
        ctx.eq(r.criterion, ref.criterion_classification(ref.vector(bits, want["prediction"]), y), f"{what}: criterion on the train set")
        y2 = y[1:] + y[:1]
        r.eval(np.array(y2), ref.columns(test))
        ctx.eq(r.criterion, ref.criterion_classification(ref.vector(test, want["prediction"]), y2) if not ref.na(want["prediction"]) else r.criterion,
               f"{what}: criterion on activation {test}, targets {list(y2)}")
        ref.check_stats(ctx, r, want, f"{what}: after eval")
        ctx.step(3)
        ctx.state(bits, y)
        ctx.outcome("never activated" if ref.na(want["prediction"]) else "activated")
        r.del_activation()


Y6 = ((0, 0, 1, 1, 2, 0), (1, 1, 1, 0, 0, 0), (2, 2, 1, 1, 0, 0), (0, 1, 0, 1, 0, 1), (2, 0, 2, 2, 1, 1), (2, 1, 0, 1, 2, 2))
B6 = ((1, 1, 1, 1, 1, 1), (0, 1, 1, 1, 1, 0), (1, 1, 1, 1, 0, 0), (0, 0, 1, 0, 1, 1))
ORDERS = list(itertools.product(Y6, B6))


def orders(ctx, c):
    from ruleskit import ClassificationRule, Rule

    Rule.LOCAL_ACTIVATION = False
    cls = CLASSES[c["classes"]]
    y, bits = ORDERS[c["sample"]]
    want = ref.fit_classification(bits, [cls[k] for k in y])
    for p in itertools.permutations(range(6)):
        if ctx.tier == "quick" and p[5] > p[0]:
            continue
        r = ref.bit_rule(ClassificationRule, 0)
        r.fit(np.array([cls[y[k]] for k in p]), ref.columns([bits[k] for k in p]))
        ctx.eq(prediction(r), want["prediction"], f"targets {y} {bits} in order {p}: prediction")
        ctx.step()
    ctx.state(c)
    ctx.outcome("orders")


def containers(ctx, c):
    from ruleskit import ClassificationRule, Rule

    cls = CLASSES[c["classes"]]
    local, s = STORES[c["store"]]
    Rule.LOCAL_ACTIVATION = local
    vec.apply_settings(s)
    for ys, bits in (((0, 1, 1, 2, 0), (0, 1, 1, 1, 0)), ((2, 2, 0, 0, 1), (1, 1, 1, 1, 1)), ((1, 0, 2, 0, 1), (1, 0, 1, 0, 0)), ((0, 1, 2, 2, 2), (0,) * 5)):
        y = [cls[k] for k in ys]
        want = ref.fit_classification(bits, y)
        for xk, xs in cond.containers([[3, b] for b in bits], ["a", "b"]):
            for kind in ref.TARGETS + ("category",):
                yy = pd.Series(y).astype("category").astype(object) if kind == "category" else ref.target(y, kind)
                if yy is None or (kind not in ("array", "series_strings", "object") and xk not in ("array", "frame", "frame_strings")):
                    continue
                before = cond.frozen(xs), cond.frozen(yy)
                r = ref.bit_rule(ClassificationRule, 1, name="b")
                r.fit(y=yy, xs=xs)
                what = f"features as {xk}, targets as {kind}, to files {local}, settings {s}, classes {y}, activation {bits}"
                ref.check_stats(ctx, r, want, what)
                r.eval(yy, xs)
                ctx.eq(r.criterion, ref.criterion_classification(ref.vector(bits, want["prediction"]), y), f"{what}: criterion")
                ctx.ensure((cond.frozen(xs), cond.frozen(yy)) == before, f"{what}: inputs changed")
                ctx.step(2)
                ctx.state(c, bits, xk, kind)
                r.del_activation()
    ctx.outcome("containers")


DATA = {"1": ((0, 1, 1, 0, 1, 1), (0, 1, 1, 2, 0, 2)), "2": ((1, 1, 0), (2, 2, 0)), "3": ((0, 0, 0, 0), (0, 1, 2, 2))}


def history(ctx, c):
    from ruleskit import ClassificationRule, Rule

    Rule.LOCAL_ACTIVATION = len(set(c["ops"])) == 3
    cls = CLASSES[c["classes"]]
    r = ref.bit_rule(ClassificationRule, 0)
    want = None
    for k, op in enumerate(c["ops"]):
        bits, y = DATA[op[-1]]
        y = [cls[v] for v in y]
        xs, yy = ref.columns(bits), np.array(y)
        what = f"after {c['ops'][:k + 1]}"
        if op.startswith("fit"):
            r.fit(yy, xs)
            want = ref.fit_classification(bits, y)
        elif want is None:
            continue
        elif op.startswith("predict"):
            if not ref.na(want["prediction"]):
                ctx.eq(ref.vals(r.predict(xs)), ref.vector(bits, want["prediction"]), f"{what}: prediction vector")
        else:
            r.eval(yy, xs, recompute_activation=op == "keep2")
            if op == "keep2":
                want["coverage"] = sum(bits) / len(bits)
            if not ref.na(want["prediction"]):
                ctx.eq(r.criterion, ref.criterion_classification(ref.vector(bits, want["prediction"]), y), f"{what}: criterion")
        ref.check_stats(ctx, r, want, what)
        ctx.step()
        ctx.state(c["classes"], c["ops"][: k + 1])
    ctx.outcome("history")


def long(ctx, c):
    """Counts that differ by one, or not at all, in long targets."""
    from ruleskit import ClassificationRule

    cls = CLASSES[c["classes"]]
    n = c["n"]
    for more, act in itertools.product((0, 1, 2), ("ones", "notfirst", "half")):
        y = [cls[k % 3] for k in range(n - 1)] + [cls[more]]
        bits = vec.structured(act, n)
        r = ref.bit_rule(ClassificationRule, 0)
        r.fit(np.array(y), ref.columns(bits))
        ctx.eq(prediction(r), ref.fit_classification(bits, y)["prediction"], f"{n} targets, one more of {cls[more]}, {act}: prediction")
        ctx.step()
        ctx.state(c, more, act)
        r.del_activation()
    ctx.outcome("long")


def many(ctx, c):
    """Many classes: the most frequent one, at every rank."""
    from ruleskit import ClassificationRule, Rule

    Rule.LOCAL_ACTIVATION = False
    base = CLASSES[c["classes"]][0]
    for m in (3, 10, 11, 12, 101, 300):
        cls = [f"{base}{k}" if isinstance(base, str) else base + k for k in range(m)]
        for j in sorted({0, 1, m // 2, m - 2, m - 1}):
            y = cls + [cls[j]]
            for yy in (y, y[::-1], y[m // 3:] + y[: m // 3]):
                bits = [1] * len(y)
                r = ref.bit_rule(ClassificationRule, 0)
                r.fit(np.array(yy), ref.columns(bits))
                ctx.eq(prediction(r), cls[j], f"{m} classes, {cls[j]} twice: prediction")
                ctx.step()
                ctx.state(c, m, j)
        r = ref.bit_rule(ClassificationRule, 0)
        r.fit(np.array(cls[::-1]), ref.columns([1] * m))
        ctx.eq(prediction(r), min(cls), f"{m} classes, each once: prediction")
    ctx.outcome("many classes")
