"""Reference model of activation vectors: a tuple of 0/1, and the ways to build and observe one."""
import itertools
import os
from pathlib import Path

import numpy as np
from bitarray import bitarray, frozenbitarray

VIEWS = (
    "length", "len", "raw", "nones", "coverage", "ones", "as_bitarray", "as_integer", "as_compressed",
    "as_compressed_str", "as_compressed_array", "entropy", "rel_entropy",
)
FORMATS = (
    "u1", "i8", "f8", "bool", "i1", "strided", "bitarray", "bits", "int", "cstr", "carr", "carr32", "path", "pathstr",
    "lasy", "lasystr", "bitlittle", "bitfrozen", "cspaced", "carr_u4", "path_bool", "path_i8", "lasy_bool", "lasy_f8",
    "path_digits",
)


RARE_FORMATS = ("bitlittle", "bitfrozen", "cspaced", "carr_u4", "path_bool", "path_i8", "lasy_bool", "lasy_f8", "carr32", "strided",
                "path_digits")


def compressed(bits):
    return [bits[0]] + [i for i in range(1, len(bits)) if bits[i] != bits[i - 1]] + [len(bits)]


def value(bits, view):
    n = len(bits)
    if view in ("length", "len"):
        return n
    if view == "raw":
        return list(bits)
    if view == "nones":
        return sum(bits)
    if view == "coverage":
        return sum(bits) / n
    if view == "ones":
        return [i for i, b in enumerate(bits) if b]
    if view == "as_bitarray":
        return "".join(map(str, bits))
    if view == "as_integer":
        return int("".join(map(str, bits)), 2)
    if view in ("as_compressed", "as_compressed_str"):
        return ",".join(map(str, compressed(bits)))
    if view == "as_compressed_array":
        return compressed(bits)
    if view == "entropy":
        return len(compressed(bits))
    if view == "rel_entropy":
        return len(compressed(bits)) / n
    raise KeyError(view)


def observe(act, view):
    """A view, in the form of the reference value."""
    if view == "len":
        return len(act)
    v = getattr(act, view)
    if view == "raw":
        assert isinstance(v, np.ndarray) and v.ndim == 1, f"raw is not a 1-D array: {v!r}"
        return v.tolist()
    if view == "as_bitarray":
        assert isinstance(v, bitarray), f"as_bitarray is a {type(v)}"
        return v.to01()
    if view == "as_integer":
        assert isinstance(v, (int, np.integer)), f"as_integer is a {type(v)}"
        return int(v)
    if view in ("as_compressed", "as_compressed_str"):
        assert isinstance(v, str), f"{view} is a {type(v)}"
        return v.replace(" ", "")
    if view == "as_compressed_array":
        assert isinstance(v, np.ndarray), f"as_compressed_array is a {type(v)}"
        return v.tolist()
    if view == "ones":
        return [int(i) for i in v]
    if view in ("length", "nones", "entropy"):
        assert v == int(v), f"{view} is {v!r}"
        return int(v)
    return float(v)


def check(ctx, act, bits, what, views=VIEWS):
    for view in views:
        got, want = observe(act, view), value(bits, view)
        ctx.step()
        if got != want and not (view in ("coverage", "rel_entropy") and abs(got - want) <= 1e-12):
            ctx.fail(f"{what}: {view} is {str(got)[:200]}, expected {str(want)[:200]}")


def data(fmt, bits, directory, name="given.npy"):
    """The representation `fmt` of the bits: positional argument and keyword arguments of Activation."""
    s = "".join(map(str, bits))
    n = len(bits)
    if fmt in ("u1", "i8", "f8", "i1"):
        return np.array(bits, dtype=fmt), {}
    if fmt == "bool":
        return np.array(bits, dtype=bool), {}
    if fmt == "strided":
        big = np.full((n, 2), 9, dtype="u1")
        big[:, 0] = bits
        return big[:, 0], {}
    if fmt == "bitarray":
        return bitarray(s), {}
    if fmt == "bitlittle":
        return bitarray(s, endian="little"), {}
    if fmt == "bitfrozen":
        return frozenbitarray(s), {}
    if fmt == "bits":
        return s, {}
    if fmt == "int":
        return int(s, 2), {"length": n}
    if fmt == "cstr":
        return ",".join(map(str, compressed(bits))), {}
    if fmt == "cspaced":
        return ", ".join(map(str, compressed(bits))), {}
    if fmt == "carr_u4":
        return np.array(compressed(bits), dtype="u4"), {}
    if fmt == "carr":
        return np.array(compressed(bits)), {}
    if fmt == "carr32":
        return np.array(compressed(bits), dtype="int32"), {}
    if fmt == "path_digits":
        # a name of digits, relative to the current directory
        os.chdir(directory)
        with open("10.01", "wb") as f:
            np.save(f, np.array(bits, dtype="u1"))
        return "10.01", {}
    path = Path(directory) / name
    with open(path, "wb") as f:
        np.save(f, np.array(bits, dtype=fmt.partition("_")[2] or "u1"))
    return (str(path) if fmt.endswith("str") else path), {"lasy": fmt.startswith("lasy")}


def ok(fmt, n):
    return not (fmt in ("carr", "carr32", "carr_u4") and n < 2)


def build(ctx, fmt, bits, name="given.npy", **opts):
    from ruleskit import Activation

    arg, kw = data(fmt, bits, ctx.files, name)
    ctx.step()
    return Activation(arg, **kw, **opts)


def all_bits(n):
    return itertools.product((0, 1), repeat=n)


def de_bruijn(k):
    """Binary sequence of length 2**k containing each window of k bits once (cyclically)."""
    a, seq = [0] * 2 * k, []

    def db(t, p):
        if t > k:
            if k % p == 0:
                seq.extend(a[1: p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, 2):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq


def structured(name, n):
    if name == "zeros":
        return [0] * n
    if name == "ones":
        return [1] * n
    if name == "first":
        return [1] + [0] * (n - 1)
    if name == "last":
        return [0] * (n - 1) + [1]
    if name == "notfirst":
        return [0] + [1] * (n - 1)
    if name == "notlast":
        return [1] * (n - 1) + [0]
    if name == "alt0":
        return [i % 2 for i in range(n)]
    if name == "alt1":
        return [1 - i % 2 for i in range(n)]
    if name == "half":
        return [0] * (n // 2) + [1] * (n - n // 2)
    if name == "blocks7":
        return [(i // 7) % 2 for i in range(n)]
    if name == "blocks64":
        return [1 - (i // 64) % 2 for i in range(n)]
    if name == "middle":
        return [1 if i == n // 2 else 0 for i in range(n)]
    if name == "bruijn":
        s = de_bruijn(8)
        return (s * (n // 256 + 1))[:n]
    raise KeyError(name)


STRUCTURES = (
    "zeros", "ones", "first", "last", "notfirst", "notlast", "alt0", "alt1", "half", "blocks7", "blocks64", "middle",
    "bruijn",
)


def settings(dtypes=("str", "array"), wc=(False, True), raw=(False, True)):
    return list(itertools.product(dtypes, wc, raw))


def apply_settings(s):
    from ruleskit import Activation

    Activation.DTYPE = str if s[0] == "str" else np.ndarray
    Activation.WILL_COMPARE = bool(s[1])
    Activation.STORE_RAW = bool(s[2])


def listing(*dirs):
    """Content of directories, to see what changed: {name: bytes}."""
    out = {}
    for d in dirs:
        for p in sorted(Path(d).iterdir()):
            out[f"{Path(d).name}/{p.name}"] = p.read_bytes() if p.is_file() else None
    return out


# storage format -> (input representation, settings when created, to_file)
STORAGE = {
    "file": ("u1", ("str", False, False), True),
    "raw": ("u1", ("array", False, True), False),
    "bitarray": ("bitarray", ("str", False, False), False),
    "integer": ("int", ("str", True, False), False),
    "compressed_str": ("cstr", ("str", False, False), False),
    "compressed_array": ("carr", ("array", False, False), False),
    "lasy": ("lasy", ("str", False, False), True),
    "little": ("bitlittle", ("array", False, False), False),
    "lasy_bool": ("lasy_bool", ("str", False, False), True),
}


def stored(ctx, storage, bits, name="given.npy", optimize=False):
    """A vector held in the given storage format (as far as the library decides so)."""
    fmt, s, to_file = STORAGE[storage]
    if not ok(fmt, len(bits)):
        fmt = "u1"
    apply_settings(s)
    return build(ctx, fmt, bits, name=name, to_file=to_file, optimize=optimize)


def poke(act):
    """Modify in place the array that `raw` gives, if it can be modified."""
    r = act.raw
    if r.flags.writeable:
        r[:] = 1 - r


def independent(ctx, act, others, what):
    """Neither modifying the array of `act` nor clearing `act` changes the `others`, a list of (vector, bits, name)."""
    for change, name in ((poke, "modifying the raw form"), (lambda v: v.clear(), "clearing")):
        change(act)
        for o, bits, which in others:
            check(ctx, o, bits, f"{what}: {which}, after {name} of the result", ("raw", "nones"))
