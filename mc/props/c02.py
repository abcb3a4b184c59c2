"""C02: reading, profiling and copying a vector changes neither it, nor the settings, nor the files."""
import itertools
from copy import copy

from mc import env, vec

PROPERTY = "C02"
SIZES = tuple(f"sizeof_{x}" for x in ("path", "file", "raw", "bitarray", "integer", "compressed_array", "compressed_str"))
TIMES = tuple(
    f"time_{x}"
    for x in (
        "write", "read", "raw_to_compressed", "raw_to_integer", "raw_to_bitarray", "compressed_to_raw", "bitarray_to_raw",
        "integer_to_raw", "compressed_to_bitarray", "bitarray_to_compressed", "integer_to_compressed",
        "bitarray_to_integer", "integer_to_bitarray", "compressed_to_integer",
    )
)
STRUCT = ("copy", "clear", "clear_copy", "delete", "delete_copy", "flip:WILL_COMPARE", "flip:DTYPE", "flip:STORE_RAW", "flip:FORCE_STAT")
ALL_OPS = vec.VIEWS + SIZES + TIMES + STRUCT
CORE_OPS = ("raw", "nones", "entropy", "as_compressed_array", "as_integer", "sizeof_file", "sizeof_bitarray", "time_read",
            "time_compressed_to_raw", "time_bitarray_to_integer") + STRUCT
# storage format -> (input representation, settings, to_file)
STORAGE = {
    "file": ("u1", ("str", False, False), True),
    "lasy": ("lasy", ("str", False, False), True),
    "raw": ("u1", ("array", False, True), False),
    "bitarray": ("bitarray", ("str", False, False), False),
    "integer": ("int", ("str", True, False), False),
    "compressed_str": ("cstr", ("str", False, False), False),
    "compressed_array": ("carr", ("array", True, False), False),
    "best": ("i8", ("array", False, False), False),
}
VECTORS = ("10", "0011", "111", "000", "0101100", "long")
BOUNDS = {
    "quick": f"all histories of 2 operations out of {len(ALL_OPS)} (views, sizes, times, copy, clear, delete, changes of settings)"
    f" and of 3 operations out of {len(CORE_OPS)}, on {len(STORAGE)} storage formats x {len(VECTORS)} vectors (2 for depth 3), "
    "forced statistics on and off",
    "thorough": f"all histories of 3 operations out of {len(ALL_OPS)} and of 4 operations out of {len(CORE_OPS)}, on "
    f"{len(STORAGE)} storage formats x 3 vectors (2 for depth 4), forced statistics on",
}
ASSUMPTIONS = ["the caller does not modify in place the arrays of a vector it reads again (it may modify those of a copy)",
               "a deleted vector's data are not read"]


def cases(tier):
    q = tier == "quick"
    for st in STORAGE:
        for b in VECTORS if q else VECTORS[1::2]:
            for force in (False, True) if q else (True,):
                for first in ALL_OPS:
                    yield {"storage": st, "bits": b, "force": force, "first": [first], "ops": "all", "depth": 2 if q else 3}
    for st in STORAGE:
        for b in ("0011", "0101100"):
            for first in CORE_OPS:
                for second in CORE_OPS:
                    yield {"storage": st, "bits": b, "force": True, "first": [first, second], "ops": "core", "depth": 3 if q else 4}


def run_case(ctx, c):
    ops = ALL_OPS if c["ops"] == "all" else CORE_OPS
    for rest in itertools.product(ops, repeat=c["depth"] - len(c["first"])):
        history(ctx, c, tuple(c["first"]) + rest)


def history(ctx, c, ops):
    from ruleskit import Activation

    if ("clear_copy" in ops or "delete_copy" in ops) and "copy" not in ops:
        return
    env.reset(ctx.vectors)
    for d in (ctx.vectors, ctx.files):
        for p in d.iterdir():
            p.unlink()
    bits = vec.structured("blocks7", 300) if c["bits"] == "long" else [int(x) for x in c["bits"]]
    fmt, settings, to_file = STORAGE[c["storage"]]
    vec.apply_settings(settings)
    Activation.FORCE_STAT = c["force"]
    a = vec.build(ctx, fmt, bits, to_file=to_file)
    what = f"{c['storage']} vector {c['bits']} after {list(ops)}"
    # model: the bits of a and of its copy (None: deleted, or not made)
    model, objs = {"a": bits, "copy": None}, {"a": a}
    files = vec.listing(ctx.vectors, ctx.files)
    quiet = True
    for op in ops:
        ctx.step()
        if op == "copy":
            if model["a"] is not None:
                objs["copy"], model["copy"] = copy(a), list(model["a"])
                quiet = False
        elif op.startswith("clear"):
            k = "copy" if op.endswith("copy") else "a"
            if model[k] is not None:
                objs[k].clear()
                model[k] = [0] * len(bits)
                quiet = False
        elif op.startswith("delete"):
            k = "copy" if op.endswith("copy") else "a"
            if model[k] is not None and not (k == "a" and c["storage"] == "lasy"):
                objs[k].delete()
                model[k] = None
                quiet = False
        elif op.startswith("flip:"):
            name = op[5:]
            if name == "DTYPE":
                import numpy as np

                Activation.DTYPE = str if Activation.DTYPE is np.ndarray else np.ndarray
            else:
                setattr(Activation, name, not getattr(Activation, name))
        elif model["a"] is not None:
            before = env.activation_settings()
            if op in vec.VIEWS:
                got, want = vec.observe(a, op), vec.value(model["a"], op)
                ctx.ensure(vec.value(model["a"], op) == got or abs(float(got) - float(want)) < 1e-12 if isinstance(want, float) else got == want,
                           lambda: f"{what}: {op} is {got}, expected {want}")
            else:
                getattr(a, op)
            now = env.activation_settings()
            ctx.ensure(now == before, lambda: f"{what}: reading {op} changed the class settings from {before} to {now}")
    if quiet:
        now = vec.listing(ctx.vectors, ctx.files)
        ctx.ensure(now == files, lambda: f"{what}: files changed from {sorted(files)} to {sorted(now)}")
    for k in objs:
        if model[k] is not None:
            vec.check(ctx, objs[k], model[k], f"{k} of {what}", ("nones", "entropy", "raw", "length", "coverage", "as_integer",
                                                              "as_compressed_array", "ones", "as_bitarray", "rel_entropy", "as_compressed"))
    if model["a"] is not None and model["copy"] is not None:
        first, second = ("a", "copy") if len(ops) % 2 == len(ops[0]) % 2 else ("copy", "a")
        vec.independent(ctx, objs[first], [(objs[second], model[second], second)], what)
    ctx.state(c["storage"], c["bits"], [(k, m) for k, m in model.items()], getattr(a, "data_format", None), c["force"])
    ctx.outcome("only reads" if quiet else "with copies, clears or deletions")
