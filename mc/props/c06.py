"""C06: concurrent use from several threads gives the results of sequential use (all schedules up to a preemption bound)."""
import itertools
import random
import threading
from copy import copy

import numpy as np
import pandas as pd

from mc import env, ref, sched, vec

PROPERTY = "C06"
X, Y, Z = [0, 1, 1, 0, 1], [1, 1, 0, 0, 1], [0, 0, 1, 0, 0]
SETTINGS = (("str", False, False), ("array", True, False))
OBS = ("raw",)
VIEWS = ("raw", "nones", "as_bitarray", "as_integer", "as_compressed", "entropy")
BOUNDS = {
    "quick": "all ordered pairs out of 11 operations on two threads' own vectors x 2 settings, and all pairs of 6 view reads of a shared "
    "vector x 7 storage formats: every schedule with at most 1 preemption, at any line of the code of ruleskit; both threads draw the same "
    "file names first; 8 operations (fit, evaluate, predict, save and load, AND, slice, sort, ...) on rules and rule sets of a thread, interrupted by fitting or "
    "evaluating those of another one, and 5 uses of a shared fitted rule set interrupted by 2 of them (part of them with stacked fits): a preemption at the first execution of each line",
    "thorough": "the same with every schedule of at most 2 preemptions on vectors; all ordered pairs of the 8 operations on rules and rule sets and of the 5 uses of a shared set, "
    "x 3 settings: a preemption at the first and at the last execution of each line",
}
ASSUMPTIONS = ["switches happen between lines of ruleskit's Python code (not inside numpy or bitarray calls)",
               "forced statistics are not used on vectors shared by threads"]


def observe(acts):
    return [[vec.observe(a, v) for v in OBS] for a in acts]


def want(*bits):
    return [[vec.value(b, v) for v in OBS] for b in bits]


def make(ctx, k, bits, op):
    return {s: vec.stored(ctx, s, bits, f"t{k}{s}.npy") for s in NEEDS.get(op, ())}


NEEDS = {
    "copy": ("file", "integer", "compressed_array"),
    "and_files": ("file", "lasy"),
    "and_mixed": ("bitarray", "compressed_str", "integer", "raw"),
    "or": ("integer", "file", "compressed_array", "compressed_str"),
    "sub": ("file", "bitarray"),
    "multi": ("file", "compressed_str"),
    "contains": ("file", "compressed_str", "integer", "compressed_array"),
    "views": ("file", "compressed_str", "integer", "bitarray"),
}


# operation -> (body(own vectors of the thread), reference)
def _create(vs, x, y):
    from ruleskit import Activation

    a = Activation(np.array(x, dtype="u1"))
    b = Activation(np.array(y))
    return [a, b]


def _create_delete(vs, x, y):
    from ruleskit import Activation

    a = Activation(np.array(x, dtype="u1"))
    r = list(a.raw)
    a.delete()
    b = Activation(np.array(y))
    assert r == x, f"file vector read back {r}"
    return [b]


def _create_memory(vs, x, y):
    from ruleskit import Activation

    return [Activation(np.array(x), to_file=False), Activation("".join(map(str, y)))]


def _copy(vs, x, y):
    return [copy(vs["file"]), copy(vs["integer"]), copy(vs["compressed_array"])]


def _and_files(vs, x, y):
    return [vs["file"] & vs["lasy"]]


def _and_mixed(vs, x, y):
    return [vs["bitarray"] & vs["compressed_str"], vs["integer"] & vs["raw"]]


def _or(vs, x, y):
    return [vs["integer"] | vs["file"], vs["compressed_array"] + vs["compressed_str"]]


def _sub(vs, x, y):
    return [vs["file"] - vs["bitarray"]]


def _multi(vs, x, y):
    from ruleskit import Activation

    return [Activation.multi_logical_or([vs["file"], vs["compressed_str"]])]


def _contains(vs, x, y):
    assert vs["file"] in vs["compressed_str"], "a vector is not in one with the same points"
    assert vs["integer"].get_correlation(vs["compressed_array"]) == 1, "correlation of equal vectors"
    return []


def _views(vs, x, y):
    for v in ("as_integer", "as_bitarray", "as_compressed", "as_compressed_array", "entropy"):
        for st in ("file", "compressed_str", "integer", "bitarray"):
            got, ref = vec.observe(vs[st], v), vec.value(x, v)
            assert got == ref, f"{v} of {st} is {got}, expected {ref}"
    return [vs["file"]]


zero = [0] * len(X)
OPS = {
    "create": (_create, lambda x, y: [x, y]),
    "create_delete": (_create_delete, lambda x, y: [y]),
    "create_memory": (_create_memory, lambda x, y: [x, y]),
    "copy": (_copy, lambda x, y: [x, x, x]),
    "and_files": (_and_files, lambda x, y: [x]),
    "and_mixed": (_and_mixed, lambda x, y: [x, x]),
    "or": (_or, lambda x, y: [x, x]),
    "sub": (_sub, lambda x, y: [zero]),
    "multi": (_multi, lambda x, y: [x]),
    "contains": (_contains, lambda x, y: []),
    "views": (_views, lambda x, y: [x]),
}


# Operations on rules and rule sets: body(thread, rule sets already fitted, data), returning what is compared with a run alone
FEATS = (
    np.array([[1.0, 0, 1], [1, 1, 0], [0, 1, 0], [0, 0, 0], [1, 1, 1]]),
    np.array([[0.0, 1, 1], [1, 1, 0], [1, 0, 1], [0, 0, 0], [0, 1, 0]]),
)
TARGETS = ([1, 2, 4, -8, 0.5], [3, -1, 0, 2, 2])
CLASSES = (list("abbac"), list("bbacc"))
RSETTINGS = ((True, False, False), (False, True, False), (True, True, True))  # files, stacked fit, classification


def _rules(n=3):
    import ruleskit

    cls = ruleskit.ClassificationRule if _CLASSIF[0] else ruleskit.RegressionRule
    return [ref.bit_rule(cls, i) for i in range(n)]


_CLASSIF = [False]


def _y(t):
    return pd.Series(CLASSES[t] if _CLASSIF[0] else TARGETS[t])


def _state(s):
    return [[str(r.condition), ref.bits_of(r), {k: ref.plain(getattr(r, k, None)) for k in ref.STATS}, r.good] for r in s.rules] + [
        None if s.activation is None else [int(v) for v in s.activation], s.ruleset_coverage, ref.plain(s.criterion),
        sorted(s.stacked_activations.columns) if s.stacked_activations is not None else None]


def _new_set(t, ctx):
    from ruleskit import RuleSet

    s = RuleSet(_rules())
    s.fit(_y(t), FEATS[t])
    return s


def _r_fit(t, s, ctx):
    return _state(_new_set(t, ctx))


def _r_eval(t, s, ctx):
    s.eval(_y(t), FEATS[t][::-1])
    return _state(s)


def _r_keep(t, s, ctx):
    s.eval(_y(t), FEATS[t][::-1], keep_new_activations=True)
    return _state(s)


def _r_predict(t, s, ctx):
    return [ref.vals(s.predict()), ref.vals(s.predict(FEATS[t][1:3])), ref.vals(s.predict(weights="coverage"))]


def _r_evaluate(t, s, ctx):
    a = s.evaluate(FEATS[t])
    return [a.raw.tolist(), a.data_format, s.evaluate(FEATS[t][2:]).raw.tolist()]


def _r_single(t, s, ctx):
    r, q = _rules(2)
    r.fit(_y(t), FEATS[t])
    q.fit(_y(t), FEATS[t])
    r.eval(_y(t), FEATS[t])
    b = r & q
    return [{k: ref.plain(getattr(r, k, None)) for k in ref.STATS}, ref.vals(r.predict(FEATS[t])), b.activation.tolist(), str(b.condition), q in r]


def _r_saveload(t, s, ctx):
    from ruleskit import RuleSet

    p = ctx.files / f"rules{t}.csv"
    s.save(p)
    u = RuleSet()
    u.load(p)
    return [[str(r), ref.plain(r.prediction), ref.plain(r.coverage)] for r in u.rules] + [ref.vals(u.predict(FEATS[t])), u == s]


def _r_build(t, s, ctx):
    u = s[::2]
    u.append(s[1])
    u.sort("coverage")
    w = s + _fitted_extra(t)
    return _state(u) + _state(w)


def _fitted_extra(t):
    r = _rules(3)[2]
    r._condition.bmins = [0]
    r.fit(_y(t), FEATS[t])
    return r


ROPS = {"fit": _r_fit, "eval": _r_eval, "keep": _r_keep, "predict": _r_predict, "evaluate": _r_evaluate, "single": _r_single, "saveload": _r_saveload, "build": _r_build}
SHARED = ("predict", "evaluate", "saveload", "build", "single")


def cases(tier):
    quick = tier == "quick"
    for s in RSETTINGS:
        for a, b in itertools.product(ROPS, ROPS):
            if not quick or (b in ("fit", "evaluate") and s == RSETTINGS[0]) or (b == "fit" and s == RSETTINGS[2] and a in ("fit", "keep", "predict", "evaluate")):
                yield {"kind": "rules", "ops": [a, b], "settings": s}
        for a, b in itertools.product(SHARED, SHARED):
            if not quick or (b in ("predict", "evaluate") and s == RSETTINGS[0]):
                yield {"kind": "one set", "ops": [a, b], "settings": s}
    for a, b in itertools.product(OPS, repeat=2):
        for s in SETTINGS:
            yield {"kind": "own", "ops": [a, b], "settings": s}
    for st in vec.STORAGE:
        for v, w in itertools.product(VIEWS, repeat=2):
            for s in SETTINGS:
                yield {"kind": "shared", "storage": st, "views": [v, w], "settings": s}


def run_case(ctx, c):
    places = []
    n0 = execute(ctx, c, [(0, None)], places=places)
    ctx.outcome("sequential")
    points = range(n0)
    if c["kind"] in ("rules", "one set"):  # the first and the last time each line is run
        first, last = {}, {}
        for i, p in enumerate(places):
            first.setdefault(p, i)
            last[p] = i
        points = sorted(set(first.values()) | (set() if ctx.tier == "quick" else set(last.values())))
    for i in points:
        n = execute(ctx, c, [(0, i), (1, None)])
        ctx.outcome("1 preemption")
    if ctx.tier == "thorough" and c["kind"] not in ("rules", "one set"):
        for i in range(n0):
            _, n1 = execute(ctx, c, [(0, i), (1, None)], both=True)
            for j in range(n1):
                execute(ctx, c, [(0, i), (1, j), (0, None)])
                ctx.outcome("2 preemptions")


_ALONE = {}


def alone(ctx, c, t):
    """What the operation gives when nothing else runs."""
    k = repr((c, t))
    if k not in _ALONE:
        if len(_ALONE) > 10:
            _ALONE.clear()
        s = _new_set(t if c["kind"] == "rules" else 0, ctx)
        _ALONE[k] = ROPS[c["ops"][t]](t, s, ctx)
        for d in (ctx.vectors, ctx.files):
            for p in d.iterdir():
                p.unlink()
    return _ALONE[k]


def execute(ctx, c, plan, both=False, places=None):
    from ruleskit import Activation

    env.reset(ctx.vectors)
    for p in ctx.vectors.iterdir():
        p.unlink()
    for p in ctx.files.iterdir():
        p.unlink()
    what = f"schedule {plan} of {c}"
    if c["kind"] in ("rules", "one set"):
        from ruleskit import Rule, RuleSet

        Rule.LOCAL_ACTIVATION, RuleSet.STACKED_FIT, _CLASSIF[0] = c["settings"]
        expected = [alone(ctx, c, t) for t in (0, 1)]
        if c["kind"] == "one set":
            sets = [_new_set(0, ctx)] * 2
        else:
            sets = [None if c["ops"][t] in ("fit", "single") else _new_set(t, ctx) for t in (0, 1)]
        bodies = [lambda t=t: ROPS[c["ops"][t]](t, sets[t], ctx) for t in (0, 1)]
    elif c["kind"] == "own":
        vs = [make(ctx, 0, X, c["ops"][0]), make(ctx, 1, Y, c["ops"][1])]
        vec.apply_settings(c["settings"])
        args = [(vs[0], X, Z), (vs[1], Y, Z)]
        bodies = [lambda t=t: observe(OPS[c["ops"][t]][0](*args[t])) for t in (0, 1)]
        expected = [want(*OPS[c["ops"][t]][1](*args[t][1:])) for t in (0, 1)]
    else:
        a = vec.stored(ctx, c["storage"], X)
        vec.apply_settings(c["settings"])
        bodies = [lambda t=t: vec.observe(a, c["views"][t]) for t in (0, 1)]
        expected = [vec.value(X, c["views"][t]) for t in (0, 1)]
    before = env.all_settings()
    # both threads draw the same numbers
    draws, rnd = {}, random.randint

    def randint(*_a):
        k = threading.get_ident()
        draws[k] = draws.get(k, -1) + 1
        return draws[k]

    def at_switch(frame):
        now = env.all_settings()
        return None if now == before else f"class settings are {now} at {frame.f_code.co_name}, configured {before}"

    random.randint = randint
    try:
        r = sched.Run(bodies, plan, at_switch, trace=(True, both or len(plan) > 2), places=places, at_line=at_switch)
        problem = r.go()
    finally:
        random.randint = rnd
    ctx.step(1 + r.switches)
    ctx.state(c, plan[0][1])
    for t in (0, 1):
        if r.error[t] is not None:
            ctx.fail(f"{what}: thread {t} got {type(r.error[t]).__name__}: {r.error[t]}")
        ctx.ensure(r.result[t] == expected[t] or repr(r.result[t]) == repr(expected[t]), lambda: f"{what}: thread {t} got {r.result[t]}, expected {expected[t]}")
    ctx.ensure(problem is None, f"{what}: {problem}")
    ctx.ensure(env.all_settings() == before, f"{what}: class settings changed")
    if r.blocked:
        ctx.outcome("a thread waited for the other")
    return tuple(r.lines) if both else r.lines[0]
