"""C10: a fitted regression rule's statistics describe its activated targets."""
import itertools
import math

import numpy as np

from mc import cond, ref, vec

PROPERTY = "C10"
NAN = math.nan
VALUES = (0, 1, -2, 0.5, NAN)
NMAX = {"quick": 4, "thorough": 6}
OPS = ("fit1", "fit2", "refit", "eval2", "evalkeep2", "predict2", "evaltrain")
BOUNDS = {
    t: f"all activations x all targets over {{0, 1, -2, 0.5, NaN}} of up to {NMAX[t]} observations, in memory and (part of the targets) in files; all containers "
    "of targets x features x 16 storage settings; all histories of "
    f"{3 if t == 'quick' else 4} operations among {len(OPS)} followed by a fit, on data sets of different lengths; statistics computed one by one for all pairs of own and given activations of up to 3 observations; 1 to 3 features with "
    "missing and infinite values; horizons up to 260; targets of up to 3 observations times 2^-200 to 2^200 and plus or minus 2^26; lengths around 2^8 and 2^16"
    for t in NMAX
}
ASSUMPTIONS = ["targets are dyadic numbers (small, or scaled by powers of two), so that means are exact up to 1e-9"]
STORES = list(itertools.product((True, False), vec.settings()))


def cases(tier):
    for n in range(1, NMAX[tier] + 1):
        for bits in vec.all_bits(n):
            for local in (True, False):
                if n == 6 and local:
                    continue
                if tier == "quick" or n < 6:
                    yield {"kind": "small", "bits": list(bits), "local": local}
                else:
                    for first in range(len(VALUES)):
                        yield {"kind": "small", "bits": list(bits), "local": local, "first": first}
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for b in vec.all_bits(n):
            yield {"kind": "given", "bits": list(b)}
    for k, (y, bits) in enumerate(SAMPLES):
        for s in range(len(STORES)):
            yield {"kind": "containers", "sample": k, "store": s}
    for n in range(1, (3 if tier == "quick" else 4) + 1):
        for ops in itertools.product(OPS, repeat=n):
            yield {"kind": "history", "ops": list(ops)}
    for fs in itertools.product((None, (0, 1), (1, 1), (-math.inf, 0.5), (2, 1)), repeat=3):
        if any(fs):
            yield {"kind": "features", "cond": [[i, str(a[0]), str(a[1])] for i, a in enumerate(fs) if a]}
    for n in (1, 2, 3):
        for bits in vec.all_bits(n):
            yield {"kind": "magnitudes", "bits": list(bits)}
    for n in (254, 255, 256, 257, 65535, 65536, 65537):
        for s in vec.STRUCTURES:
            yield {"kind": "long", "n": n, "structure": s}


SAMPLES = [
    ([1, 2, 4, 8, 16], (0, 1, 1, 0, 1)),
    ([-3, 0, 0, 3, 7], (1, 1, 0, 0, 0)),
    ([1.5, NAN, -2, 0.25, NAN], (1, 1, 1, 0, 1)),
    ([0, 0, 0, 0, 0], (1, 0, 1, 1, 1)),
    ([5, -1, 2, 3, 3], (1, 1, 1, 1, 1)),
    ([5, -1, 2, 3, 3], (0, 0, 0, 0, 0)),
    ([NAN, NAN, 1, 2, 3], (1, 1, 0, 0, 0)),
    ([2, 7, 1, 1, 0], (0, 0, 0, 1, 0)),
]


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def verify(ctx, r, bits, y, what, horizon=1, tol=1e-9):
    want = ref.fit_regression(bits, y, horizon)
    ref.check_stats(ctx, r, want, what, tol=tol)
    ctx.ensure(ref.bits_of(r) == list(bits), lambda: f"{what}: activation {ref.bits_of(r)}")
    ctx.ensure(r.nones == sum(bits), f"{what}: number of activated points {r.nones}")
    ctx.ensure(r.good and r.bad_because is None, f"{what}: the rule is bad without thresholds")
    ctx.outcome("no target" if ref.na(want["prediction"]) else "one target" if want["std"] == 0 else "several targets")
    ctx.step()


def magnitudes(ctx, c):
    """Large and small targets, and targets far from zero."""
    from ruleskit import RegressionRule, Rule

    bits = c["bits"]
    xs = ref.columns(bits)
    Rule.LOCAL_ACTIVATION = False
    for y in itertools.product(VALUES, repeat=len(bits)):
        want = ref.fit_regression(bits, y)
        what = f"activation {bits}, targets {y}"
        for check, op, values in ((ref.check_scaled, np.multiply, ref.SCALES), (ref.check_shifted, np.add, ref.OFFSETS)):
            for v in values:
                r = ref.bit_rule(RegressionRule, 0)
                r.fit(y=op(np.array(y, dtype=float), v), xs=xs)
                check(ctx, {k: getattr(r, k) for k in want}, want, v, what)
                ctx.step()
        ctx.state(bits, y)
    ctx.outcome("magnitudes")


def small(ctx, c):
    from ruleskit import RegressionRule, Rule

    bits = c["bits"]
    n = len(bits)
    Rule.LOCAL_ACTIVATION = c["local"]
    xs = ref.columns(bits)
    first = VALUES if c.get("first") is None else (VALUES[c["first"]],)
    for y0 in first:
        for rest in itertools.product(VALUES, repeat=n - 1):
            y = (y0,) + rest
            if c["local"] and n >= 4 and (rest[-1] != rest[-2] and rest[0] != 0):
                continue  # on files: half of the targets, all activations
            r = ref.bit_rule(RegressionRule, 0)
            r.fit(np.array(y, dtype=float), xs)
            verify(ctx, r, bits, y, f"activation {bits}, targets {list(y)}")
            ctx.state(bits, y)
            if c["local"]:
                r.del_activation()


def given(ctx, c):
    """Statistics computed one by one, from the rule's activation or from one that is given."""
    from ruleskit import Activation, RegressionRule, Rule

    bits = c["bits"]
    n = len(bits)
    for local in (True, False):
        Rule.LOCAL_ACTIVATION = local
        for y in itertools.product((0, 1, -2, NAN), repeat=n):
            yy = np.array(y, dtype=float)
            for other in vec.all_bits(n):
                r = ref.bit_rule(RegressionRule, 0)
                r.fit(yy, ref.columns(bits))
                act = Activation(np.array(other), to_file=not local)
                r.calc_prediction(yy, activation=act)
                r.calc_std(yy, activation=act)
                r.calc_sign()
                r.calc_zscore(yy, activation=act, horizon=2)
                want = ref.fit_regression(other, y, 2)
                want["coverage"] = sum(bits) / n
                what = f"activation {bits}, targets {list(y)}, statistics computed for {list(other)}"
                ref.check_stats(ctx, r, want, what)
                ctx.ensure(ref.bits_of(r) == bits and act.raw.tolist() == list(other), f"{what}: activations changed")
                r.calc_prediction(yy)
                r.calc_std(yy)
                r.calc_sign()
                r.calc_zscore(yy)
                verify(ctx, r, bits, y, f"{what}, then for its own")
                ctx.state(bits, y, other)
            Activation.clean_files()


def containers(ctx, c):
    from ruleskit import Activation, RegressionRule, Rule

    y, bits = SAMPLES[c["sample"]]
    local, s = STORES[c["store"]]
    Rule.LOCAL_ACTIVATION = local
    vec.apply_settings(s)
    names = ["a", "b"]
    for stat in (False, True):
        Activation.FORCE_STAT = stat
        RegressionRule.COMPUTE_SUBATTRIBUTES = stat
        for xk, xs in cond.containers([[3, b] for b in bits], names):
            for kind in ref.TARGETS:
                yy = ref.target(y, kind)
                if yy is None or (kind not in ("array", "series_strings", "int") and xk not in ("array", "frame", "frame_strings")):
                    continue
                before = cond.frozen(xs), cond.frozen(yy)
                r = ref.bit_rule(RegressionRule, 1, name="b")
                r.fit(y=yy, xs=xs)
                what = f"features as {xk}, targets as {kind}, to files {local}, settings {s}"
                tol = 1e-5 if kind == "float32" else 1e-9
                verify(ctx, r, bits, y, what, tol=tol)
                for h in (2, 5, 21, 260):
                    r.fit(y=yy, xs=xs, horizon=h)
                    verify(ctx, r, bits, y, f"{what}, horizon {h}", h, tol)
                ctx.ensure((cond.frozen(xs), cond.frozen(yy)) == before, f"{what}: fit changed its inputs")
                ctx.state(c["sample"], c["store"], xk, kind)
                r.del_activation()


DATA = {
    "1": ((0, 1, 1, 0, 1, 1), (4, 1, -2, 8, 0.5, 1)),
    "2": ((1, 1, 0), (-4, 6, 1)),
}


def history(ctx, c):
    """Whatever happened before, the statistics after a fit are those of the data it was given."""
    from ruleskit import RegressionRule, Rule

    for local in (True, False):
        Rule.LOCAL_ACTIVATION = local
        r = ref.bit_rule(RegressionRule, 0)
        fitted, done = None, []
        for op in c["ops"] + ["fit1"]:
            d = op[-1] if op[-1] in DATA else None
            if d:
                bits, y = DATA[d]
                xs, yy = ref.columns(bits), np.array(y, dtype=float)
            if op in ("fit1", "fit2"):
                r.fit(yy, xs)
                fitted = d
            elif fitted is None:
                continue
            elif op == "refit":
                yy = np.array(DATA[fitted][1], dtype=float)
                r.fit(yy, ref.columns(DATA[fitted][0]))
                r.fit(yy)
            elif op == "eval2":
                r.eval(yy, xs)
            elif op == "evalkeep2":
                stats = {k: ref.plain(getattr(r, k)) for k in ("prediction", "std", "sign", "zscore", "train_set_size")}
                r.eval(yy, xs, recompute_activation=True)
                got = {k: ref.plain(getattr(r, k)) for k in stats}
                ctx.eq(got, stats, f"after {done + [op]}: training statistics")
                ctx.ensure(ref.bits_of(r) == list(bits), f"after {done + [op]}: activation {ref.bits_of(r)}")
                fitted = None
            elif op == "evaltrain":
                r.eval(np.array(DATA[fitted][1], dtype=float))
            else:
                r.predict(xs)
            done.append(op)
            if fitted:
                verify(ctx, r, *DATA[fitted], f"after {done}")
                ctx.state(done)


def features(ctx, c):
    from ruleskit import RegressionRule

    cd = [(i, float(a), float(b)) for i, a, b in c["cond"]]
    vals = (0, 0.5, 1, 2, NAN, math.inf)
    rows = [list(p) for p in itertools.product(vals, repeat=3)]
    y = [((7 * k) % 11) / 2 - 2 if k % 9 else NAN for k in range(len(rows))]
    bits = cond.bits(cd, rows)
    for kind, xs in cond.containers(rows, ["X_0", "X_1", "X_2"], ("array", "fortran", "frame", "shuffled", "frame_same", "frame_dates")):
        r = RegressionRule(cond.build(cd))
        r.fit(np.array(y), xs)
        verify(ctx, r, bits, y, f"{cd} on {kind}")
        ctx.state(cd, kind)


def long(ctx, c):
    from ruleskit import Activation, RegressionRule, Rule

    n = c["n"]
    bits = vec.structured(c["structure"], n)
    y = [(k % 7) - 2 for k in range(n)]
    arr = np.array(y, dtype=float)
    want = ref.fit_regression(bits, y)
    xs = ref.columns(bits)
    for local, s in STORES if n < 1000 else STORES[1::5]:
        Rule.LOCAL_ACTIVATION = local
        vec.apply_settings(s)
        r = ref.bit_rule(RegressionRule, 0)
        r.fit(arr, xs)
        ref.check_stats(ctx, r, want, f"{n} observations, {c['structure']}, {local} {s}")
        ctx.ensure(np.array_equal(r.activation, bits), f"{n} observations, {c['structure']}, {local} {s}: activation")
        ctx.step()
        ctx.state(n, c["structure"], local, s)
        r.del_activation()
    Activation.DTYPE = str
    ctx.outcome("long")
