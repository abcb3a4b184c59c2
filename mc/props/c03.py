"""C03: logical operations on activation vectors are pointwise Boolean operations."""
import itertools
import operator

import numpy as np

from mc import env, vec

PROPERTY = "C03"
OPS = {
    "and": (operator.and_, lambda x, y: x & y),
    "or": (operator.or_, lambda x, y: x | y),
    "xor": (operator.xor, lambda x, y: x ^ y),
    "sub": (operator.sub, lambda x, y: x & (1 - y)),
    "add": (operator.add, lambda x, y: x | y),
}
MULTI = {"multi_logical_and": all, "multi_logical_or": any, "multi_logical_xor": lambda v: any(v) and not (len(v) > 1 and all(v))}
N = {"quick": 3, "thorough": 5}
BOUNDS = {
    t: f"all pairs of vectors of length 1..{N[t]} and structured pairs of 30 lengths up to 70000 x {len(vec.STORAGE)}^2 storage formats x "
    f"settings x 5 operators; all lists of 1..3 vectors of length 1..2 and lists of up to 300 vectors x 3 many-vector operators "
    "x array or vector result x available-memory scenarios (plenty, too little for all at once, too little for two, "
    "allocation failures) x 1 or 4 processes; all pairs of different lengths 1..4; results and "
    "operands do not change when the other is modified, cleared"
    for t in N
}
PAIRS_LONG = [(9, "alt0", "alt1"), (64, "half", "bruijn"), (257, "blocks7", "blocks64"), (300, "bruijn", "notfirst"), (1000, "alt0", "last")]
PAIRS_HUGE = [(70000, "blocks7", "blocks64"), (65537, "bruijn", "half")]
MEMORY = {
    "plenty": ([], 64 * 10**9, False),
    "pairs": ([10**6, 10**6 - 4 * 10**5] * 2, 10**6, False),
    "tight": ([10**6, 10**4] * 2, 10**6, False),
    "fault": ([], 64 * 10**9, True),
}


def cases(tier):
    for n in range(1, N[tier] + 1):
        for x in vec.all_bits(n):
            for fx in vec.STORAGE:
                yield {"kind": "pairs", "x": list(x), "fx": fx}
    for n in (4, 5, 6, 7, 8, 10, 15, 16, 17, 24, 31, 32, 33, 48, 63, 65, 72, 127, 128, 129, 255, 256, 511, 512, 513):
        yield {"kind": "sizes", "n": n}
    for n, s1, s2 in PAIRS_LONG + PAIRS_HUGE:
        for fx in vec.STORAGE:
            yield {"kind": "long", "n": n, "s": [s1, s2], "fx": fx}
    for n1, n2 in itertools.permutations(range(1, 5), 2):
        for fx in vec.STORAGE:
            yield {"kind": "lengths", "n": [n1, n2], "fx": fx}
    lists = [
        [list(b) for b in acs]
        for n in (1, 2)
        for k in (1, 2, 3)
        for acs in itertools.product(list(vec.all_bits(n)), repeat=k)
    ]
    for acs in lists:
        for mem in MEMORY:
            yield {"kind": "multi", "acs": acs, "mem": mem}
    for k in (*range(2, 34), 127, 128, 129, 254, 255, 256, 257, 258, 300) + ((511, 512, 513, 1024) if tier == "thorough" else ()):
        for mem in MEMORY:
            yield {"kind": "many", "k": k, "mem": mem}
    for n in (9, 300, 70000):
        for mem in MEMORY:
            yield {"kind": "manylong", "n": n, "mem": mem}


def run_case(ctx, c):
    {"pairs": pairs, "long": long_pair, "sizes": sizes, "lengths": lengths, "multi": multi, "many": many, "manylong": manylong}[c["kind"]](ctx, c)


def binary(ctx, x, y, fx, fy, s, opts=(False, False), views=("raw", "length", "nones", "as_integer", "entropy", "coverage")):
    a = vec.stored(ctx, fx, x, "a.npy", opts[0])
    b = vec.stored(ctx, fy, y, "b.npy", opts[1])
    vec.apply_settings(s)
    for name, (op, ref) in OPS.items():
        r = op(a, b)
        ctx.step()
        what = f"{fx} {x if len(x) < 20 else len(x)} {name} {fy} {y if len(y) < 20 else len(y)} with settings {s}"
        vec.check(ctx, r, [ref(i, j) for i, j in zip(x, y)], what, views)
        vec.check(ctx, a, x, what + ": left operand", ("raw", "nones"))
        vec.check(ctx, b, y, what + ": right operand", ("raw", "nones"))
        vec.independent(ctx, r, [(a, x, "left operand"), (b, y, "right operand")], what)
        ctx.outcome(f"result stored as {getattr(r, 'data_format', '?')}")
    if len(x) < 5000:
        # and the other way round: results do not change with their operands
        rs = {name: op(a, b) for name, (op, _) in OPS.items()}
        a.clear()
        b.clear()
        for name, r in rs.items():
            vec.check(ctx, r, [OPS[name][1](i, j) for i, j in zip(x, y)], f"{fx} {name} {fy} {s}, operands cleared afterwards", ("raw", "nones"))
    ctx.state(x[:20], y[:20], fx, fy, s)


def pairs(ctx, c):
    from ruleskit import Activation

    x = c["x"]
    i = 0
    for y in vec.all_bits(len(x)):
        for fy in vec.STORAGE:
            # all settings over the formats, and each pair of vectors with each pair of formats
            for s in vec.settings() if len(x) < 3 else (vec.settings()[i % 8],):
                for opts in ((False, False), (True, True), (True, False)) if len(x) < 2 else ((bool(i % 2), bool(i % 2)),):
                    binary(ctx, x, list(y), c["fx"], fy, s, opts)
            i += 1
        Activation.clean_files()


def long_pair(ctx, c):
    x, y = vec.structured(c["s"][0], c["n"]), vec.structured(c["s"][1], c["n"])
    settings = vec.settings() if c["n"] < 5000 else vec.settings()[1::3]
    for i, fy in enumerate(vec.STORAGE):
        for s in settings[i % 2::2] if c["n"] < 5000 else settings[i % 3: i % 3 + 1]:
            binary(ctx, x, y, c["fx"], fy, s, (bool(i % 2), bool(i % 2)))


def sizes(ctx, c):
    """One pair of vectors of each length, in all pairs of formats."""
    x, y = vec.structured("bruijn", c["n"]), vec.structured("blocks7", c["n"])[::-1]
    for i, (fx, fy) in enumerate(itertools.product(vec.STORAGE, repeat=2)):
        s = vec.settings()
        binary(ctx, x, y, fx, fy, s[i % len(s)], (bool(i % 2), bool(i % 2)))


def lengths(ctx, c):
    from ruleskit import Activation

    n1, n2 = c["n"]
    for fy in vec.STORAGE:
        for v1, v2 in itertools.product((0, 1), repeat=2):
            a = vec.stored(ctx, c["fx"], [v1] * n1, "a.npy")
            b = vec.stored(ctx, fy, [v2] * n2, "b.npy")
            for s in vec.settings(dtypes=("str",)):
                vec.apply_settings(s)
                for name, (op, _) in OPS.items():
                    ctx.raises(lambda: op(a, b).raw, f"{name} of vectors of lengths {n1} ({c['fx']}) and {n2} ({fy})")
                    ctx.step()
                for name in MULTI:
                    ctx.raises(lambda: getattr(Activation, name)([a, b], True), f"{name} of vectors of lengths {n1} and {n2}")
                vec.check(ctx, a, [v1] * n1, "left operand", ("raw",))
                vec.check(ctx, b, [v2] * n2, "right operand", ("raw",))
    ctx.outcome("different lengths refused")


def nary(ctx, acs, mem, formats, s, ncpus=1, views=("raw", "length", "nones", "as_integer")):
    from ruleskit import Activation

    vs = [vec.stored(ctx, f, x, f"v{i}.npy") for i, (f, x) in enumerate(zip(formats, acs))]
    vec.apply_settings(s)
    Activation.NCPUS = ncpus
    script, default, fault = MEMORY[mem]
    real = np.vstack
    for name, ref in MULTI.items():
        for asarray in (False, True):
            env.memory(script, default)
            if fault:
                def failing(tup, *a, **k):
                    if len(tup) > 2:
                        raise MemoryError("injected")
                    return real(tup, *a, **k)

                np.vstack = failing
            try:
                r = getattr(Activation, name)(vs, asarray)
            except MemoryError:
                ctx.outcome("refused for lack of memory")
                ctx.ensure(mem in ("tight",), f"{name}: MemoryError in scenario {mem}")
                r = None
            finally:
                np.vstack = real
                env.memory()
            ctx.step()
            what = f"{name}({[x if len(x) < 20 else len(x) for x in acs][:5]}, k={len(acs)}, formats {formats[:3]}, asarray={asarray}, memory {mem}, settings {s})"
            if r is not None:
                want = [int(ref([x[j] for x in acs])) for j in range(len(acs[0]))]
                if asarray:
                    ctx.ensure(isinstance(r, np.ndarray), f"{what} is a {type(r)}")
                    ctx.ensure(r.tolist() == want, lambda: f"{what} is {r.tolist()[:30]}, expected {want[:30]}")
                else:
                    vec.check(ctx, r, want, what, views)
                if asarray and len(acs) > 1:
                    r[:] = 1 - r
                elif len(acs) > 1 and len(acs[0]) < 5000:
                    vec.independent(ctx, r, [(v, x, "operand") for v, x in zip(vs[:3], acs)], what)
                ctx.outcome(f"many-vector, memory {mem}")
            for v, x in zip(vs, acs):
                vec.check(ctx, v, x, what + ": operand", ("raw",))
    ctx.state(acs if len(acs) < 5 and len(acs[0]) < 20 else (len(acs), len(acs[0])), mem, formats[:3], s)


def multi(ctx, c):
    names = list(vec.STORAGE)
    k = len(c["acs"])
    # all same format, and all rotations of mixed formats
    combos = [[f] * k for f in names] + [[names[(i + j) % len(names)] for j in range(k)] for i in range(len(names))]
    for i, formats in enumerate(combos):
        for s in (vec.settings()[i % 8], vec.settings()[(i + 3) % 8]):
            nary(ctx, c["acs"], c["mem"], formats, s, ncpus=1 + 3 * (i % 2))


def many(ctx, c):
    k = c["k"]
    counts = sorted({m for m in (0, 1, 2, 127, 128, 254, 255, 256, 257, k - 1, k) if m <= k})
    # points where the first m vectors are 1, only one of them is, all but one are
    one = range(k) if k < 64 else (0, 1, k // 2, k - 2, k - 1)
    acs = [[int(i < m) for m in counts] + [int(i == j) for j in one] + [int(i != j) for j in one] for i in range(k)]
    names = list(vec.STORAGE)
    for shift, s in enumerate((("str", False, False), ("array", True, False), ("array", False, True))):
        order = acs if shift != 1 else acs[::-1]
        nary(ctx, order, c["mem"], [names[(i + shift) % len(names)] for i in range(k)], s)
        nary(ctx, order, c["mem"], ["raw"] * k, s)


def manylong(ctx, c):
    acs = [vec.structured(s, c["n"]) for s in ("blocks7", "bruijn", "half", "notlast")]
    names = list(vec.STORAGE)
    for shift in range(0, 7, 2):
        nary(ctx, acs, c["mem"], [names[(i + shift) % len(names)] for i in range(4)], vec.settings()[shift])
