"""C08: AND of two conditions or rules is the intersection of their regions."""
import itertools

import numpy as np
import pandas as pd

from mc import cond, vec
from mc.cond import INF

PROPERTY = "C08"
IV = {"quick": ((0, 1), (1, 2), (0, 2.5), (-INF, 0.5)), "thorough": ((0, 1), (1, 2), (0, 2.5), (-INF, 0.5), (2, 3), (1, 1), (0.5, INF), (1, 0))}
VALUES = (-1, 0, 0.5, 0.75, 1, 1.5, 2, 2.5, 3)
POINTS = [list(p) for p in itertools.product((-1, 0, 0.25, 0.5, 1, 1.5, 2, 2.5, 3), repeat=3)]
XS = np.array(POINTS, dtype=float)
BOUNDS = {
    t: f"all pairs of conditions over 3 features, each absent or with one of {len(IV[t])} intervals, x 3 pairs of feature orders, "
    f"on all {len(POINTS)} points of a grid; all triples over 2 features; all pairs of rules over 2 features x storage settings x rule types; "
    "conditions with disagreeing names and indexes, impossible operands, named features, up to 130 features each"
    for t in IV
}


def conditions(tier, nf, ivs=None):
    """All conditions over nf features: list of (feature, lo, hi)."""
    for combo in itertools.product((None,) + tuple(ivs or IV[tier]), repeat=nf):
        fs = [(k, *iv) for k, iv in enumerate(combo) if iv is not None]
        if fs:
            yield fs


def enc(fs):
    return [[f, str(a), str(b)] for f, a, b in fs]


def dec(fs):
    return [(f, *(int(x) if x.lstrip("-").isdigit() else float(x) for x in (a, b))) for f, a, b in fs]


def cases(tier):
    for fs in conditions(tier, 3):
        yield {"kind": "pairs", "a": enc(fs)}
    for fs in conditions(tier, 2):
        yield {"kind": "triples", "a": enc(fs)}
        yield {"kind": "rules", "a": enc(fs)}
    yield {"kind": "refused"}
    yield {"kind": "wide"}


def ref_and(a, b):
    out = {f: (lo, hi) for f, lo, hi in a}
    for f, lo, hi in b:
        l0, h0 = out.get(f, (-INF, INF))
        out[f] = (max(lo, l0), min(hi, h0))
    return out


def snapshot(c):
    return (list(c.features_indexes), list(c.bmins), list(c.bmaxs), list(c.features_names), c.impossible)


def verify(ctx, r, want, what, names=None, pts=True):
    got = {}
    ctx.ensure(len(r.features_names) == len(r.features_indexes) == len(r.bmins) == len(r.bmaxs) == len(want) == len(r),
               f"{what}: {r} has {len(r.features_names)} features, expected {len(want)}")
    for n, i, lo, hi in zip(r.features_names, r.features_indexes, r.bmins, r.bmaxs):
        got[i] = (lo, hi)
        ctx.ensure(n == (names[i] if names else f"X_{i}"), f"{what}: feature {i} is named {n}")
    ctx.ensure(got == want, lambda: f"{what}: is {got}, expected {want}")
    imp = any(lo > hi for lo, hi in want.values())
    ctx.ensure(r.impossible == imp, f"{what}: impossible is {r.impossible}, expected {imp}")
    ctx.step()
    if pts:
        cd = [(i, lo, hi) for i, (lo, hi) in want.items()]
        ref = np.all([(XS[:, i] >= lo) & (XS[:, i] <= hi) for i, lo, hi in cd], axis=0).astype(int)
        ctx.ensure(np.array_equal(r.evaluate(XS), ref), f"{what}: {r} is not met where both are")
        ctx.step()
    return imp


ORDERS = ((False, False), (True, True), (False, True))


def run_case(ctx, c):
    globals()[c["kind"]](ctx, c)


def pairs(ctx, c):
    a = dec(c["a"])
    for b in conditions(ctx.tier, 3):
        want = ref_and(a, b)
        for n, (ra, rb) in enumerate(ORDERS):
            if n and len(a) == 1 and len(b) == 1:
                continue
            ca = cond.build(a[::-1] if ra else a, sort=not ra)
            cb = cond.build(b[::-1] if rb else b, sort=not rb)
            sa, sb = snapshot(ca), snapshot(cb)
            what = f"({ca}) & ({cb})"
            r = ca & cb
            imp = verify(ctx, r, want, what, pts=n == 0)
            ctx.ensure((snapshot(ca), snapshot(cb)) == (sa, sb), f"{what}: an operand was modified")
            if n == 2:
                s = cb & ca
                verify(ctx, s, want, f"({cb}) & ({ca})", pts=False)
                ctx.ensure(r == s and hash(r) == hash(s), f"{what} differs from the AND in the other order")
            if n == 1:
                for x in (r.bmins, r.bmaxs):
                    for k in range(len(x)):
                        x[k] = -99
                ctx.ensure((snapshot(ca), snapshot(cb)) == (sa, sb), f"{what}: changing the result changes an operand")
        ctx.outcome("impossible" if imp else "possible")
        ctx.state(sorted(want.items()))


def triples(ctx, c):
    a = dec(c["a"])
    ca = cond.build(a)
    verify(ctx, ca & ca, {f: (lo, hi) for f, lo, hi in a}, f"({ca}) & itself")
    ctx.ensure((ca & ca) == ca, f"({ca}) & itself differs")
    for b in conditions(ctx.tier, 2):
        cb = cond.build(b)
        for d in conditions(ctx.tier, 2):
            cdd = cond.build(d)
            want = ref_and([(f, *v) for f, v in ref_and(a, b).items()], d)
            l, r = (ca & cb) & cdd, ca & (cb & cdd)
            verify(ctx, l, want, f"(({ca}) & ({cb})) & ({cdd})", pts=False)
            verify(ctx, r, want, f"({ca}) & (({cb}) & ({cdd}))", pts=False)
            ctx.ensure(l == r, f"AND of {ca}, {cb}, {cdd} is not associative")
            ctx.state(sorted(want.items()))
    ctx.outcome("triples")


def rules(ctx, c):
    from ruleskit import Activation, ClassificationRule, RegressionRule

    a = dec(c["a"])
    rows = [list(p) for p in itertools.product((0, 0.75, 1, 2), repeat=2)]
    xs = np.array(rows, dtype=float)
    y = np.arange(len(rows)) % 3
    i = 0
    for b in conditions(ctx.tier, 2):
        want = ref_and(a, b)
        for cls in (RegressionRule, ClassificationRule):
            s = vec.settings()[i % 8]
            i += 1
            vec.apply_settings(s)
            cls.LOCAL_ACTIVATION = bool((i // 8) % 2)
            data = xs if i % 3 else pd.DataFrame(xs, columns=["X_0", "X_1"])
            ra, rb = cls(cond.build(a)), cls(cond.build(b))
            ra.fit(y=y, xs=data)
            rb.fit(y=y, xs=data)
            before = [(snapshot(r.condition), r.activation.tolist(), r.prediction, r.coverage) for r in (ra, rb)]
            r = ra & rb
            what = f"{cls.__name__} ({ra.condition}) & ({rb.condition}), settings {s}"
            ctx.ensure(type(r) is cls, f"{what} is a {type(r)}")
            verify(ctx, r.condition, want, what, pts=False)
            bits = cond.bits([(f, *v) for f, v in want.items()], rows)
            ctx.ensure(r.activation.tolist() == bits, lambda: f"{what}: activation is {r.activation.tolist()}, expected {bits}")
            ctx.eq(r.coverage, sum(bits) / len(bits), f"{what}: coverage")
            after = [(snapshot(r.condition), r.activation.tolist(), r.prediction, r.coverage) for r in (ra, rb)]
            ctx.ensure(repr(before) == repr(after), f"{what}: an operand was modified")
            # the intersection and its operands do not share their activations
            r.del_activation()
            ctx.ensure([x.activation_available for x in (ra, rb)] == [True, True] and ra.activation.tolist() == before[0][1]
                       and rb.activation.tolist() == before[1][1], f"{what}: deleting the activation of the result changes an operand")
            r = ra & rb
            ra.del_activation()
            rb.del_activation()
            ctx.ensure(r.activation.tolist() == bits, f"{what}: deleting the activations of the operands changes the result")
            ctx.step()
            ctx.state(sorted(want.items()), cls.__name__, s)
        Activation.clean_files()
    ctx.outcome("rules")


def refused(ctx, c):
    from ruleskit import HyperrectangleCondition as H

    def cd(ix, names):
        return H(features_indexes=ix, bmins=[0] * len(ix), bmaxs=[1] * len(ix), features_names=names)

    bad = [
        (([0], ["a"]), ([1], ["a"])), (([0], ["a"]), ([0], ["b"])), (([0, 1], ["a", "b"]), ([1, 0], ["a", "b"])),
        (([0, 1], ["a", "b"]), ([1, 2], ["c", "d"])), (([0, 1], ["a", "b"]), ([0, 2], ["a", "b"])), (([2, 3], ["a", "b"]), ([3], ["a"])),
    ]
    for (i1, n1), (i2, n2) in bad + [(y, x) for x, y in bad]:
        ctx.raises(lambda: cd(i1, n1) & cd(i2, n2), f"AND of features {n1} at {i1} and {n2} at {i2}")
        ctx.step()
    ctx.outcome("refused")


def wide(ctx, c):
    """Many features, shared in every proportion."""
    for n in (2, 5, 12, 17, 33, 64, 100, 130):
        for k in range(n + 1) if n < 20 else (0, 1, n // 2, n - 17, n - 1, n):
            a = [(i, i, i + 2) for i in range(n)]
            b = [(i, i + 1, i + 3) for i in range(k, k + n)]
            for ra, rb in ORDERS:
                names = [f"f{999 - i}" for i in range(2 * n)]
                ca = cond.build(a[::-1] if ra else a, sort=not ra, names=names)
                cb = cond.build(b[::-1] if rb else b, sort=not rb, names=names)
                verify(ctx, ca & cb, ref_and(a, b), f"({ca}) & ({cb})", names=names, pts=False)
                verify(ctx, cb & ca, ref_and(a, b), f"({cb}) & ({ca})", names=names, pts=False)
                ctx.state(n, k, ra, rb)
    ctx.outcome("many features")
