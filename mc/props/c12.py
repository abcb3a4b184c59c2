"""C12: rule prediction returns the rule's value where active, and using rules is pure."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import cond, ref, vec

PROPERTY = "C12"
NAN, INF = math.nan, math.inf
Y = {
    "mean": (RG := "RegressionRule", (4, 1, -2, 8, 0.5)),
    "zero": (RG, (4, 1, 0, -1, 2)),
    "tiny": (RG, (3, 1e-12, 1e-12, 1e-12, 0)),
    "huge": (RG, (3, 1e15, 1e15, 2e15, 0)),
    "nan": (RG, (3, NAN, NAN, NAN, 1)),
    "ints": (CL := "ClassificationRule", (3, 1, 1, 2, 0)),
    "floats": (CL, (0.5, -1.5, -1.5, 2, 0)),
    "strings": (CL, ("a", "bcd", "bcd", "x", "y z")),
    "long strings": (CL, ("a", "a class name that is quite long, with spaces", "b", "a class name that is quite long, with spaces", "x")),
}
TRAIN = (0, 1, 1, 1, 0)
OPS = ("predict", "predict_own", "eval", "eval_own", "eval_frame", "predict_frame", "predict_one")
DEPTH = {"quick": 3, "thorough": 5}
STORES = list(itertools.product((True, False), vec.settings()))
BOUNDS = {
    t: f"rules fitted on {len(Y)} kinds of targets, predicting on all activations of up to 5 observations, all containers of features x 16 storage "
    f"settings, 1 to 3 features; all histories of {DEPTH[t]} operations among {len(OPS)} with everything observable compared before and after each; "
    "lengths around 2^8 and 2^16; rules fitted alone, in a stacked fit and loaded from a file, for 15 kinds of targets"
    for t in DEPTH
}


def cases(tier):
    for k in Y:
        for n in range(1, 6):
            yield {"kind": "values", "y": k, "n": n}
        for s in range(len(STORES)):
            yield {"kind": "containers", "y": k, "store": s}
        for ops in itertools.product(OPS, repeat=DEPTH[tier]):
            if tier == "quick" and k not in ("mean", "strings", "ints", "nan"):
                continue
            if tier == "thorough" and k in ("zero", "tiny", "huge", "floats"):
                continue
            yield {"kind": "history", "y": k, "ops": list(ops)}
        for n in (255, 256, 257, 65535, 65536, 65537):
            yield {"kind": "long", "y": k, "n": n}
    for fs in itertools.product((None, (0, 1), (1, 1), (-INF, 0.5), (2, 1)), repeat=3):
        if any(fs):
            yield {"kind": "features", "cond": [[i, str(a[0]), str(a[1])] for i, a in enumerate(fs) if a]}
    for k in ORIGIN_Y:
        for o in ("fit", "stacked", "loaded"):
            yield {"kind": "origins", "y": k, "origin": o}
    yield {"kind": "refused"}


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def fitted(k, i=0, name=None, train=TRAIN):
    import ruleskit

    cls, y = Y[k]
    r = ref.bit_rule(getattr(ruleskit, cls), i, name=name)
    y = list(y)
    xs = np.zeros((5, i + 1))
    xs[:, i] = train
    r.fit(np.array(y), xs)
    want = ref.fit_regression(train, y) if cls == RG else ref.fit_classification(train, y)
    return r, want["prediction"]


def check_vector(ctx, got, bits, pred, what, xs=None):
    if isinstance(xs, pd.DataFrame):
        ctx.ensure(isinstance(got, pd.Series), f"{what}: a {type(got)} for a data frame")
        ctx.ensure(got.index.equals(xs.index), f"{what}: the index of the prediction is {list(got.index)}")
    else:
        ctx.ensure(isinstance(got, np.ndarray) and got.ndim == 1, f"{what}: a {type(got)} for an array")
    ctx.eq(ref.vals(got), ref.vector(bits, pred), what)
    ctx.step()


def values(ctx, c):
    from ruleskit import Rule

    for local in (True, False):
        Rule.LOCAL_ACTIVATION = local
        r, pred = fitted(c["y"])
        ctx.eq(ref.plain(r.prediction), pred, "prediction of the fitted rule")
        check_vector(ctx, r.predict(), TRAIN, pred, "predicting on the train set")
        ctx.eq(ref.vals(r.calc_prediction_vector()), ref.vector(TRAIN, pred), "prediction vector on the train set")
        for bits in vec.all_bits(c["n"]):
            ctx.eq(ref.vals(r.calc_prediction_vector(activation=np.array(bits))), ref.vector(bits, pred), f"prediction vector for activation {list(bits)}")
            for xs in (ref.columns(bits), pd.DataFrame(ref.columns(bits), columns=["X_0"])):
                check_vector(ctx, r.predict(xs), bits, pred, f"predicting on {list(bits)}", xs)
            ctx.state(c["y"], bits)
        check_vector(ctx, r.predict(), TRAIN, pred, "predicting on the train set again")
        # a rule fitted on a train set of its own, used after its activation was deleted
        r.del_activation()
        check_vector(ctx, r.predict(ref.columns((1, 0))), (1, 0), pred, "predicting after the activation was deleted")
    ctx.outcome(f"prediction {pred}")


def containers(ctx, c):
    from ruleskit import Rule

    local, s = STORES[c["store"]]
    Rule.LOCAL_ACTIVATION = local
    vec.apply_settings(s)
    r, pred = fitted(c["y"], 1, "b")
    for bits in ((1, 0, 1), (0, 0, 0), (1,), (0, 1, 1, 1)):
        for xk, xs in cond.containers([[3, b] for b in bits], ["a", "b"]):
            before = cond.frozen(xs)
            check_vector(ctx, r.predict(xs), bits, pred, f"{bits} as {xk}, {local} {s}", xs)
            ctx.ensure(cond.frozen(xs) == before, f"{xk}: predict changed the features")
            ctx.state(c, bits, xk)
    ctx.outcome("containers")


def history(ctx, c):
    from ruleskit import Rule

    Rule.LOCAL_ACTIVATION = len(set(c["ops"])) != 1
    r, pred = fitted(c["y"])
    cls, y = Y[c["y"]]
    criterion = None
    base = ref.observe(r)
    test = (1, 0, 1)
    dft = pd.DataFrame({"other": [5, 5, 5], "X_0": test}, index=["u", "v", "w"])
    yt = np.array([y[1], y[0], y[2]])
    files = sorted(p.name for p in ctx.vectors.iterdir())
    for k, op in enumerate(c["ops"]):
        what = f"after {c['ops'][:k + 1]}"
        xs = ref.columns(test)
        ys = yt if op != "eval_frame" else pd.Series(yt, index=["c", "a", "b"])
        snaps = [cond.frozen(v) for v in (xs, ys, dft)]
        if op == "predict":
            check_vector(ctx, r.predict(xs), test, pred, what)
        elif op == "predict_own":
            check_vector(ctx, r.predict(), TRAIN, pred, what)
        elif op == "predict_frame":
            check_vector(ctx, r.predict(dft), test, pred, what, dft)
        elif op == "predict_one":
            for b in (0, 1):
                one = pd.DataFrame({"X_0": [b]}, index=["only"])
                check_vector(ctx, r.predict(one), [b], pred, what, one)
        else:
            yy = np.array(y) if op == "eval_own" else ys
            r.eval(yy, None if op == "eval_own" else dft if op == "eval_frame" else xs)
            bits = TRAIN if op == "eval_own" else test
            ylist = list(y) if op == "eval_own" else [y[1], y[0], y[2]]
            if cls == RG:
                criterion = ref.criterion_regression(ref.vector(bits, pred), ylist) if not any(map(ref.na, ylist)) else "any"
            else:
                criterion = ref.criterion_classification(ref.vector(bits, pred), ylist)
        now = ref.observe(r)
        if criterion == "any":
            now["criterion"] = base["criterion"]
        else:
            base["criterion"] = criterion
        now.pop("test_set_size"), base.pop("test_set_size", None)
        ctx.eq(now, base, f"{what}: the rule")
        ctx.ensure([cond.frozen(v) for v in (xs, ys, dft)] == snaps, f"{what}: the data were changed")
        ctx.step()
        ctx.state(c["y"], c["ops"][: k + 1])
    import gc

    gc.collect()
    ctx.ensure(set(files) <= {p.name for p in ctx.vectors.iterdir()}, f"after {c['ops']}: the file of the rule is gone")
    ctx.outcome("history")


def features(ctx, c):
    from ruleskit import ClassificationRule, RegressionRule

    cd = [(i, float(a), float(b)) for i, a, b in c["cond"]]
    rows = [list(p) for p in itertools.product((0, 0.5, 1, 2, NAN, INF), repeat=3)]
    bits = cond.bits(cd, rows)
    for cls, pred in ((RegressionRule, 1.25), (ClassificationRule, "some class"), (ClassificationRule, 3)):
        r = cls(cond.build(cd))
        r._prediction = pred
        for kind, xs in cond.containers(rows, ["X_0", "X_1", "X_2"], ("array", "fortran", "strided", "frame", "shuffled", "frame_same", "frame_dates")):
            check_vector(ctx, r.predict(xs), bits, pred, f"{cd} on {kind}", xs)
            ctx.state(cd, kind, str(pred))
    ctx.outcome("features")


def long(ctx, c):
    from ruleskit import Rule

    n = c["n"]
    r, pred = fitted(c["y"])
    for s in vec.STRUCTURES:
        bits = vec.structured(s, n)
        for local in (True, False):
            Rule.LOCAL_ACTIVATION = local
            got = r.predict(ref.columns(bits))
            a = np.array(bits) == 1
            ok = len(got) == n
            if ok and ref.na(pred):
                ok = bool(np.all(pd.isna(got)))
            elif ok:
                inactive = got[~a]
                ok = bool(np.all(got[a] == pred)) and bool(np.all(inactive == "nan") if isinstance(pred, str) else np.all(pd.isna(inactive)))
            ctx.ensure(ok, f"prediction on {n} observations, {s}")
            ctx.step()
            ctx.state(c, s)
    ctx.outcome("long")


ORIGIN_Y = {
    **Y,
    "large ints": (CL, (3, 2**53 - 1, 2**53 - 1, 2, 0)),
    "24 bits": (CL, (3, 2**24 + 1, 2**24 + 1, 2, 0)),
    "negative": (CL, (3, -5, -5, 2, 0)),
    "fine": (RG, (0, 0.1, 0.1, 0.1, 0)),
    "many digits": (RG, (0, 123456789.125, 123456789.125, 123456789.125, 0)),
    "accents": (CL, ("a", "é, \"è\" 日本", "é, \"è\" 日本", "x", "y z")),
}


def origins(ctx, c):
    """Rules fitted alone, in a stacked fit, and loaded from a file: the values they predict have other types."""
    import ruleskit
    from ruleskit import RuleSet

    cls, y = ORIGIN_Y[c["y"]]
    want = ref.fit_regression(TRAIN, y) if cls == RG else ref.fit_classification(TRAIN, y)
    pred = want["prediction"]
    r = ref.bit_rule(getattr(ruleskit, cls), 0)
    s = RuleSet([r])
    RuleSet.STACKED_FIT = c["origin"] != "fit"
    yy = np.array(list(y)) if c["origin"] == "fit" else pd.Series(list(y))
    s.fit(yy, ref.columns(TRAIN))
    if c["origin"] == "loaded":
        s.save(ctx.files / "rules.csv")
        s = RuleSet()
        s.load(ctx.files / "rules.csv")
        r = s[0]
    else:
        check_vector(ctx, r.predict(), TRAIN, pred, f"{c}: predicting on the train set")
    ctx.eq(ref.plain(r.prediction), pred, f"{c}: prediction")
    for n in range(1, 5):
        for bits in vec.all_bits(n):
            ctx.eq(ref.vals(r.calc_prediction_vector(activation=np.array(bits))), ref.vector(bits, pred), f"{c}: prediction vector for activation {list(bits)}")
            for xs in (ref.columns(bits), pd.DataFrame(ref.columns(bits), columns=["X_0"]), pd.DataFrame(ref.columns(bits), columns=["X_0"], index=[f"r{i}" for i in range(n)])):
                check_vector(ctx, r.predict(xs), bits, pred, f"{c}: predicting on {list(bits)}", xs)
            ctx.state(c["y"], c["origin"], bits)
    ctx.outcome(c["origin"])


def refused(ctx, c):
    from ruleskit import ClassificationRule, RegressionRule

    for cls in (RegressionRule, ClassificationRule):
        r = ref.bit_rule(cls, 0)
        ctx.raises(lambda: r.predict(), "predicting without features nor activation", ValueError)
        ctx.raises(lambda: r.fit(np.array([1, 2])), "fitting without features nor activation", ValueError)
        ctx.raises(lambda: r.eval(np.array([1, 2]), ref.columns((0, 1))), "evaluating a rule that was not fitted", ValueError)
        ctx.step(3)
    ctx.outcome("refused")
