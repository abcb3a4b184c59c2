"""C01: an activation vector is its bits, whatever the input representation, storage format and settings."""
import itertools

import numpy as np

from mc import vec

PROPERTY = "C01"
SHORT = {"quick": 5, "thorough": 10}
LONG = {
    "quick": [9, 33, 64, 128, 255, 256, 257, 300, 1000],
    "thorough": list(range(11, 70)) + [127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 999, 1000, 1001, 4096],
}
HUGE = {"quick": [32768, 65537, 70000], "thorough": [32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072]}
HUGE_STRUCTURES = {"quick": ("ones", "last", "half", "blocks64", "bruijn"), "thorough": vec.STRUCTURES}
RARE = {"quick": 4, "thorough": 8}
HUGE_FORMATS = ("u1", "bitarray", "int", "cstr", "carr", "lasy")
BOUNDS = {
    t: f"all 0/1 sequences of length 1..{SHORT[t]} and {len(vec.STRUCTURES)} structured sequences of lengths {LONG[t]} (and one of each length to 130), "
    f"x {len(vec.FORMATS)} input representations x 32 settings (compression type, WILL_COMPARE, STORE_RAW, optimize, "
    f"to_file; {len(vec.RARE_FORMATS)} rarer representations up to length {RARE[t]} and on 3 structures in the quick tier) x 2 orders of reading the views x rebuilding from each view x clearing afterwards (length <= 300); {len(HUGE_STRUCTURES[t])} structured sequences of lengths {HUGE[t]} x "
    f"{len(HUGE_FORMATS)} representations x 16 settings (optimize on)"
    for t in SHORT
}
ASSUMPTIONS = ["non-empty vectors", "a compressed array of a vector of length 1 is ambiguous and not given as input"]


def cases(tier):
    for n in range(1, SHORT[tier] + 1):
        for bits in vec.all_bits(n):
            for fmt in vec.FORMATS:
                if vec.ok(fmt, n) and (n <= RARE[tier] or fmt not in vec.RARE_FORMATS):
                    yield {"bits": "".join(map(str, bits)), "fmt": fmt}
    for n in LONG[tier]:
        for s in vec.STRUCTURES:
            for fmt in vec.FORMATS:
                if tier == "quick" and fmt in vec.RARE_FORMATS and s not in ("bruijn", "notfirst", "last"):
                    continue
                yield {"structure": s, "n": n, "fmt": fmt}
    for n in range(SHORT[tier] + 1, 131):
        if n not in LONG[tier]:
            for i, fmt in enumerate(vec.FORMATS):
                if fmt not in vec.RARE_FORMATS:
                    yield {"structure": ("bruijn", "notfirst", "last")[(n + i) % 3], "n": n, "fmt": fmt, "few": True}
    for n in HUGE[tier]:
        for s in HUGE_STRUCTURES[tier]:
            for fmt in HUGE_FORMATS:
                yield {"structure": s, "n": n, "fmt": fmt, "huge": True}


def rebuild(ctx, a, bits, what):
    from ruleskit import Activation

    n = len(bits)
    for view, kw in (
        ("raw", {}), ("as_bitarray", {}), ("as_integer", {"length": n}), ("as_compressed", {}), ("as_compressed_array", {}),
    ):
        if view == "as_compressed_array" and n < 2:
            continue
        b = Activation(getattr(a, view), **kw)
        vec.check(ctx, b, bits, f"{what}, rebuilt from {view}", ("raw", "length", "nones"))


def run_case(ctx, c):
    if "bits" in c:
        bits = [int(b) for b in c["bits"]]
    else:
        bits = vec.structured(c["structure"], c["n"])
    huge = c.get("huge", False)
    arg, kw = vec.data(c["fmt"], bits, ctx.files)
    from ruleskit import Activation

    before = arg.copy() if isinstance(arg, np.ndarray) else arg
    files = vec.listing(ctx.files)
    for s in vec.settings() if not c.get("few") else vec.settings()[c["n"] % 3::3]:
        for optimize, to_file in itertools.product((True,) if huge else (True, False), (True, False)):
            vec.apply_settings(s)
            what = f"Activation({c['fmt']}, optimize={optimize}, to_file={to_file}) with DTYPE={s[0]} WILL_COMPARE={s[1]} STORE_RAW={s[2]}"
            orders = (vec.VIEWS,) if huge or to_file and len(bits) > 20 else (vec.VIEWS, vec.VIEWS[::-1])
            for views in orders:
                a = Activation(arg, optimize=optimize, to_file=to_file, **kw)
                ctx.step()
                vec.check(ctx, a, bits, what, views)
                vec.check(ctx, a, bits, what + ", read again", ("raw", "nones", "ones", "entropy"))
            ctx.state(bits if len(bits) < 20 else c, c["fmt"], s, getattr(a, "data_format", None))
            ctx.outcome(f"stored as {getattr(a, 'data_format', '?')}")
            if not huge and optimize != to_file:
                rebuild(ctx, a, bits, what)
            if len(bits) <= 300:
                a.clear()
                vec.check(ctx, a, [0] * len(bits), what + ", read and then cleared", vec.VIEWS[::-1])
            if to_file:
                Activation.clean_files()
    if isinstance(arg, np.ndarray):
        ctx.ensure(np.array_equal(arg, before) and arg.dtype == before.dtype, "the input array was modified")
    else:
        ctx.ensure(arg == before, "the input was modified")
    ctx.eq(vec.listing(ctx.files), files, "files given as input")
