"""C04: containment and correlation of vectors and rules are set relations."""
import itertools

import numpy as np

from mc import env, vec

PROPERTY = "C04"
N = {"quick": 3, "thorough": 5}
BOUNDS = {
    t: f"all pairs of vectors of length 1..{N[t]} and structured pairs up to length 70000 x {len(vec.STORAGE)}^2 storage formats x "
    "settings, as vectors and as rules; 5x5 predictions per pair of rules; all pairs of different lengths 1..3; vectors of 2^24+2 points that differ at one"
    for t in N
}
PREDS = (-2.5, -1, 0, 0.5, 3)
STRUCTS = [
    (9, "half", "last"), (64, "ones", "bruijn"), (257, "notfirst", "middle"), (300, "alt0", "alt1"), (300, "blocks7", "blocks7"),
    (1000, "zeros", "first"), (70000, "half", "last"), (65536, "alt0", "last"),
    (5000, "notfirst", "ones"), (70000, "notlast", "ones"), (3000, "ones", "notfirst"), (9000, "alt0", "half"),
]


def cases(tier):
    for n in range(1, N[tier] + 1):
        for x in vec.all_bits(n):
            for fx in vec.STORAGE:
                yield {"kind": "pairs", "x": list(x), "fx": fx}
    for x, y in itertools.product(list(vec.all_bits(2)), repeat=2):
        yield {"kind": "signs", "x": list(x), "y": list(y)}
    for n, s1, s2 in STRUCTS:
        for fx in vec.STORAGE:
            yield {"kind": "long", "n": n, "s": [s1, s2], "fx": fx}
    for st in (("file", "file"), ("raw", "raw"), ("raw", "file")):
        for at in (0, -1) if tier == "quick" else (0, -1, 2**23):
            yield {"kind": "large", "storage": list(st), "at": at}
    for n1, n2 in itertools.permutations(range(1, 4), 2):
        yield {"kind": "lengths", "n": [n1, n2]}


LARGE = 2**24 + 2


def large_file(ctx, v, i):
    p = ctx.files / f"large{i}.npy"
    with open(p, "wb") as f:
        np.save(f, v)
    return p


def rule(act, prediction=1.0, feature=0):
    from ruleskit import HyperrectangleCondition, RegressionRule

    r = RegressionRule(HyperrectangleCondition([feature], bmins=[0], bmaxs=[1]), act)
    r._prediction = prediction
    return r


def pair(ctx, x, y, fx, fy, s, with_rules=True):
    a, b = vec.stored(ctx, fx, x, "a.npy"), vec.stored(ctx, fy, y, "b.npy")
    vec.apply_settings(s)
    ref = all(i or not j for i, j in zip(x, y))
    fer = all(j or not i for i, j in zip(x, y))
    corr = sum(i == j for i, j in zip(x, y)) / len(x)
    what = f"{x if len(x) < 20 else len(x)} ({fx}) and {y if len(y) < 20 else len(y)} ({fy}), settings {s}"
    files, before = sorted(p.name for p in ctx.vectors.iterdir()), env.activation_settings()
    objs = [("vectors", a, b)] + ([("rules", rule(a), rule(b, 2, 1))] if with_rules else [])
    for kind, p, q in objs:
        ctx.ensure((q in p) is ref or (q in p) == ref, f"{kind} {what}: second in first is {q in p}, expected {ref}")
        ctx.ensure((p in q) == fer, f"{kind} {what}: first in second is {p in q}, expected {fer}")
        ctx.eq(p.get_correlation(q), corr, f"{kind} {what}: correlation")
        ctx.eq(q.get_correlation(p), corr, f"{kind} {what}: correlation, second with first")
        ctx.ensure(p in p and q in q, f"{kind} {what}: not in itself")
        ctx.eq(p.get_correlation(p), 1, f"{kind} {what}: correlation with itself")
        ctx.step(7)
    ctx.ensure(files == sorted(p.name for p in ctx.vectors.iterdir()), lambda: f"{what}: files were {files}, are {sorted(p.name for p in ctx.vectors.iterdir())}")
    ctx.ensure(env.activation_settings() == before, f"{what}: class settings changed")
    vec.check(ctx, a, x, what + ": first", ("raw", "nones"))
    vec.check(ctx, b, y, what + ": second", ("raw", "nones"))
    ctx.state(x[:20], y[:20], fx, fy, s)
    ctx.outcome(f"contained={ref}")


def run_case(ctx, c):
    from ruleskit import Activation

    k = c["kind"]
    if k == "pairs":
        i = 0
        for y in vec.all_bits(len(c["x"])):
            for fy in vec.STORAGE:
                for s in vec.settings() if len(c["x"]) < 3 else (vec.settings()[i % 8], vec.settings()[(i + 5) % 8]):
                    pair(ctx, c["x"], list(y), c["fx"], fy, s)
                i += 1
            Activation.clean_files()
    elif k == "long":
        x, y = vec.structured(c["s"][0], c["n"]), vec.structured(c["s"][1], c["n"])
        for i, fy in enumerate(vec.STORAGE):
            for s in vec.settings()[i % 4::4] if c["n"] < 5000 else vec.settings()[i % 8: i % 8 + 1]:
                pair(ctx, x, y, c["fx"], fy, s, c["n"] < 5000)
    elif k == "large":
        n = LARGE
        Activation.STORE_RAW = True
        full, less = np.ones(n, dtype="u1"), np.ones(n, dtype="u1")
        less[c["at"]] = 0
        a, b = [Activation(v, to_file=s == "file") if s == "raw" else Activation(large_file(ctx, v, i), lasy=True) for i, (v, s) in enumerate(zip((full, less), c["storage"]))]
        what = f"{n} ones ({c['storage'][0]}) and all of them but one ({c['storage'][1]})"
        ctx.ensure(b in a and a not in b and a in a and b in b, f"{what}: containment {b in a}, {a in b}")
        corr = a.get_correlation(b)
        ctx.ensure(corr < 1 and abs(corr - (n - 1) / n) < 1e-15, f"{what}: correlation {corr}")
        for i in (0, 1):
            (ctx.files / f"large{i}.npy").unlink(missing_ok=True)
        ctx.step(5)
        ctx.state(c)
        ctx.outcome("large")
    elif k == "signs":
        x, y = c["x"], c["y"]
        base = sum(i == j for i, j in zip(x, y)) / len(x)
        for fx, fy in (("file", "file"), ("bitarray", "integer"), ("raw", "compressed_str")):
            a, b = vec.stored(ctx, fx, x, "a.npy"), vec.stored(ctx, fy, y, "b.npy")
            for p, q in itertools.product(PREDS, repeat=2):
                want = base * (-1 if p < 0 else 1) * (-1 if q < 0 else 1)
                ra, rb = rule(a, p), rule(b, q, 1)
                ctx.eq(ra.get_correlation(rb), want, f"correlation of rules {x}->{p} and {y}->{q}")
                ctx.eq(rb.get_correlation(ra), want, f"correlation of rules {y}->{q} and {x}->{p}")
                ctx.eq([ra.prediction, rb.prediction], [p, q], "predictions")
                ctx.step(2)
        ctx.outcome("signs")
        ctx.state(x, y)
    else:
        n1, n2 = c["n"]
        for (fx, fy), (v1, v2) in itertools.product(itertools.product(vec.STORAGE, repeat=2), itertools.product((0, 1), repeat=2)):
            a, b = vec.stored(ctx, fx, [v1] * n1, "a.npy"), vec.stored(ctx, fy, [v2] * n2, "b.npy")
            for kind, p, q in (("vectors", a, b), ("rules", rule(a), rule(b, 2, 1))):
                ctx.raises(lambda: p.get_correlation(q), f"correlation of {kind} of lengths {n1} ({fx}) and {n2} ({fy})")
                ctx.raises(lambda: q in p, f"containment of {kind} of lengths {n1} ({fx}) and {n2} ({fy})")
                ctx.step(2)
        ctx.outcome("different lengths refused")
