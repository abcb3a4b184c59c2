"""C05: file-stored vectors never lose, share or overwrite each other's data.

Histories of file operations with scripted name draws (collisions), files of another process appearing between the
look-up of a name and its reservation (hook on os.stat), and write failures (hook on numpy.save)."""
import itertools
import os
import random
import shutil
from copy import copy

import numpy as np

from mc import env, vec

PROPERTY = "C05"
OPS = ("create", "create_raw", "lasy", "copy_first", "copy_last", "and", "or", "sub", "clear_first", "delete_first", "delete_last",
       "clean", "other_file")
BITS = ((0, 1, 1), (1, 0, 0), (0, 0, 0), (1, 1, 1), (1, 0, 1), (0, 1, 0))
SHORT_DRAWS = [list(d) + [t] for d in itertools.product((0, 1), repeat=3) for t in ("fresh", "stuck")]
LONG_DRAWS = [["fresh"], [0, 0, 0, 0, 0, 0, "fresh"], [0, 1, 0, 2, 1, 0, "fresh"], [0, 1, "stuck"]]
MANY = (7, 17, 33, 70, 140, 300)
PRE = ("ACTIVATION_VECTOR_0.txt",)
BOUNDS = {
    "quick": f"all histories of 3 operations out of {len(OPS)} x 16 patterns of drawn names x with and without a file of another process "
    "already there; all histories of 4 operations x 4 patterns; all histories of 4 operations x 2 patterns in which "
    "nothing reads the vectors before the end; another process taking the name between look-up and reservation, and a "
    "failed or torn write, at each of the first 6 such points of all histories of 2 operations after one creation; up to 300 vectors at once, some deleted",
    "thorough": f"all histories of 4 operations out of {len(OPS)} x 16 patterns of drawn names x with and without a file of another process; "
    "all histories of 5 operations x 4 patterns, and x 2 patterns with vectors read at the end only; races and write failures at each of the first 8 points of all histories of 3 operations; up to 600 vectors at once, some deleted",
}
ASSUMPTIONS = ["clean_files is called when the vectors kept in files are no longer needed (documented purpose)",
               "names of vector files are ACTIVATION_VECTOR_<number>.txt in the configured directory"]


def cases(tier):
    q = tier == "quick"
    for first in itertools.product(OPS, repeat=2):
        for draws in SHORT_DRAWS:
            for pre in (False, True):
                yield {"ops": list(first), "more": 1 if q else 2, "draws": draws, "pre": pre}
    for first in itertools.product(OPS, repeat=3):
        for draws in LONG_DRAWS:
            yield {"ops": list(first), "more": 1 if q else 2, "draws": draws, "pre": False}
    # nothing reads the vectors before the history ends
    for ops in itertools.product(OPS, repeat=2 if q else 3):
        for draws in ([["fresh"], [0, 0, 1, "stuck"]]):
            yield {"ops": list(ops), "more": 2, "draws": draws, "pre": False, "unread": True}
    for ops in itertools.product(OPS, repeat=2 if q else 3):
        for fault in ("race", "torn", "full"):
            for at in range(6 if q else 8):
                for draws in (["fresh"], [0, 0, 1, "fresh"]):
                    yield {"ops": ["create"] + list(ops), "more": 0, "draws": draws, "pre": False, "fault": fault, "at": at}
    for n in MANY if q else MANY + (600,):
        for gone in ("even", "odd", "first half", "last half", "none"):
            for collide in (False, True):
                for length in (3, 9, 40):
                    yield {"many": n, "gone": gone, "collide": collide, "length": length}


def many(ctx, c):
    """Many vectors at once: each keeps its sequence when others are copied and deleted."""
    from ruleskit import Activation

    env.reset(ctx.vectors)
    for d in (ctx.vectors, ctx.files):
        for p in d.iterdir():
            shutil.rmtree(p) if p.is_dir() else p.unlink()
    n, length = c["many"], c["length"]
    (ctx.vectors / "keep.txt").write_bytes(b"keep")
    (ctx.vectors / "ACTIVATION_VECTOR_1.txt").write_bytes(b"of another process")
    bits = [[((i + 1) * (j + 3) // 2 + i // 7 + j) % 2 for j in range(length)] for i in range(n)]
    rnd = (random.randint, random.randrange)
    if c["collide"]:
        # numbers drawn several times each
        names = iter(range(10**9))
        random.randint = random.randrange = lambda *_a: next(names) // 3
    what = f"{n} vectors of {length} points, {c['gone']} deleted, names drawn {'several times' if c['collide'] else 'at random'}"
    try:
        live = [vec.build(ctx, "u1", b) for b in bits]
        copies = [copy(a) for a in live[:: max(1, n // 8)]]
        kept = {"even": lambda i: i % 2, "odd": lambda i: i % 2 == 0, "first half": lambda i: i >= n // 2, "last half": lambda i: i < n // 2, "none": lambda i: True}[c["gone"]]
        for i, a in enumerate(live):
            if not kept(i):
                a.delete()
        ctx.step()
        left = [(a, bits[i]) for i, a in enumerate(live) if kept(i)] + list(zip(copies, bits[:: max(1, n // 8)]))
        paths = [path_of(a) for a, _ in left if path_of(a)]
        ctx.ensure(len(paths) == len(set(paths)), f"{what}: two vectors share a file")
        for k, (a, b) in enumerate(left):
            vec.check(ctx, a, b, f"{what}: vector {k} left", ("raw", "length", "nones"))
        ctx.ensure((ctx.vectors / "keep.txt").read_bytes() == b"keep", f"{what}: a file of the user was modified")
        ctx.ensure((ctx.vectors / "ACTIVATION_VECTOR_1.txt").read_bytes() == b"of another process", f"{what}: the file of another process was modified")
        files = {os.path.basename(p) for p in paths} | {"keep.txt", "ACTIVATION_VECTOR_1.txt"}
        found = set(os.listdir(ctx.vectors))
        ctx.ensure(found == files, lambda: f"{what}: {len(found - files)} files left behind, {len(files - found)} missing")
        Activation.clean_files()
        ctx.ensure(os.listdir(ctx.vectors) == ["keep.txt"], f"{what}: clean_files left files of vectors, or removed others")
    finally:
        random.randint, random.randrange = rnd
    ctx.state("many", n, length, c["gone"], c["collide"])


def run_case(ctx, c):
    if "many" in c:
        return many(ctx, c)
    for rest in itertools.product(OPS, repeat=c["more"]):
        history(ctx, c, c["ops"] + list(rest))


class Names:
    """Scripted random numbers; `names` drawn as in the script, then fresh ones, or the last one for ever."""

    def __init__(self, script):
        self.draws, self.tail, self.n = script[:-1], script[-1], 1000

    def __call__(self, *_a):
        if self.draws:
            return self.draws.pop(0)
        if self.tail == "stuck":
            return 0
        self.n += 1
        return self.n


class Faults:
    def __init__(self, ctx, kind, at):
        self.ctx, self.kind, self.at, self.count = ctx, kind, at, 0
        self.foreign = None
        self.stat, self.save = os.stat, np.save

    def __enter__(self):
        if self.kind == "race":
            def stat(path, *a, **k):
                try:
                    return self.stat(path, *a, **k)
                except FileNotFoundError:
                    p = str(path)
                    if "ACTIVATION_VECTOR_" in p and self.foreign is None:
                        self.count += 1
                        if self.count == self.at + 1:
                            with open(p, "wb") as f:
                                f.write(b"data of another process")
                            self.foreign = p
                    raise

            os.stat = stat
        elif self.kind:
            def save(f, arr, *a, **k):
                self.count += 1
                if self.count == self.at + 1:
                    if self.kind == "torn":
                        f.write(b"\x93NUMPY\x01")
                    raise OSError(28, "No space left on device (injected)")
                return self.save(f, arr, *a, **k)

            np.save = save
        return self

    def __exit__(self, *_):
        os.stat, np.save = self.stat, self.save


def path_of(a):
    return str(a.data) if getattr(a, "data_format", None) == "file" else None


def history(ctx, c, ops):
    from ruleskit import Activation

    env.reset(ctx.vectors)
    for d in (ctx.vectors, ctx.files):
        for p in d.iterdir():
            shutil.rmtree(p) if p.is_dir() else p.unlink()
    foreign = {"keep.txt": b"keep", "ACTIVATION_VECTOR_7.npy": b"x", "MY_ACTIVATION_VECTOR_1.txt": b"y", "activation_vector_0.txt": b""}
    others = {}  # vector files of other processes
    if c["pre"]:
        others[PRE[0]] = b"vector of another process"
    for name, content in {**foreign, **others}.items():
        (ctx.vectors / name).write_bytes(content)
    # a directory of another program below the one of the vectors
    (ctx.vectors / "sub").mkdir()
    (ctx.vectors / "sub" / PRE[0]).write_bytes(b"not ours")
    user = {ctx.vectors / "sub" / PRE[0]: b"not ours"}
    live = []  # (object, bits): the model
    made = 0
    what = f"after {ops}, names drawn {c['draws']}" + (f", {c['fault']} at {c['at']}" if "fault" in c else "")
    rnd = (random.randint, random.randrange)
    names = Names(list(c["draws"]))
    random.randint = random.randrange = names
    fault = Faults(ctx, c.get("fault"), c.get("at", 0))
    try:
        with fault:
            for op in ops:
                ctx.step()
                before = set(os.listdir(ctx.vectors))
                try:
                    if op in ("create", "create_raw", "lasy"):
                        bits = list(BITS[made % len(BITS)])
                        made += 1
                        if op == "lasy":
                            a = vec.build(ctx, "lasy", bits, f"user{made}.npy")
                            user[ctx.files / f"user{made}.npy"] = (ctx.files / f"user{made}.npy").read_bytes()
                        else:
                            Activation.STORE_RAW = op == "create_raw"
                            a = vec.build(ctx, "u1" if made % 2 else "i8", bits)
                            Activation.STORE_RAW = False
                        live.append((a, bits))
                    elif op.startswith("copy"):
                        if live:
                            a, bits = live[0] if op == "copy_first" else live[-1]
                            live.append((copy(a), list(bits)))
                    elif op in ("and", "or", "sub"):
                        if len(live) >= 2:
                            (a, x), (b, y) = live[0], live[-1]
                            if op == "and":
                                live.append((a & b, [i & j for i, j in zip(x, y)]))
                            elif op == "or":
                                live.append((a | b, [i | j for i, j in zip(x, y)]))
                            else:
                                live.append((a - b, [i & (1 - j) for i, j in zip(x, y)]))
                    elif op == "clear_first":
                        if live:
                            a, bits = live[0]
                            a.clear()
                            live[0] = (a, [0] * len(bits))
                    elif op.startswith("delete"):
                        k = 0 if op == "delete_first" else -1
                        if live and not getattr(live[k][0], "lasy", False):
                            a, bits = live.pop(k)
                            mine = path_of(a)
                            a.delete()
                            gone = before - set(os.listdir(ctx.vectors))
                            want = {os.path.basename(mine)} if mine else set()
                            ctx.ensure(gone == want, f"{what}: deleting the vector in {mine} removed {gone}")
                    elif op == "clean":
                        Activation.clean_files()
                        left = {n for n in os.listdir(ctx.vectors) if n.startswith("ACTIVATION_VECTOR_") and n.endswith(".txt")}
                        ctx.ensure(not left, f"{what}: clean_files left {left}")
                        others = {}
                        if fault.foreign:
                            fault.foreign = ""
                        # vectors in files are gone, the others are not
                        live = [(a, b) for a, b in live if path_of(a) is None or getattr(a, "lasy", False)]
                    elif op == "other_file":
                        name = f"ACTIVATION_VECTOR_{made % 3}.txt"
                        if name not in before:
                            others[name] = b"vector of another process, " + name.encode()
                            (ctx.vectors / name).write_bytes(others[name])
                except OSError as e:
                    if "injected" not in str(e):
                        raise
                    ctx.outcome("write failure reported")
                verify(ctx, live, foreign, others, fault, user, what + f" ({op})", not c.get("unread"))
            if c.get("unread"):
                verify(ctx, live, foreign, others, fault, user, what + " (read at the end only)")
    finally:
        random.randint, random.randrange = rnd
    ctx.state([b for _, b in live], [path_of(a) is None for a, _ in live], sorted(others), c.get("fault"))
    ctx.outcome("race" if fault.foreign else f"vectors in files: {sum(path_of(a) is not None for a, _ in live)}")


def verify(ctx, live, foreign, others, fault, user, what, read=True):
    for path, content in user.items():
        ctx.ensure(path.exists() and path.read_bytes() == content, f"{what}: the file {path.name} given by the user was removed or modified")
    present = set(os.listdir(ctx.vectors))
    for name, content in {**foreign, **others}.items():
        p = ctx.vectors / name
        ctx.ensure(name in present, f"{what}: file {name}, not of this process, is gone")
        ctx.ensure(p.read_bytes() == content, f"{what}: file {name}, not of this process, was modified")
    if fault.foreign and os.path.basename(fault.foreign) in present:
        with open(fault.foreign, "rb") as f:
            ctx.ensure(f.read() == b"data of another process", f"{what}: the file of another process was overwritten")
    elif fault.foreign:
        ctx.fail(f"{what}: the file of another process was removed")
    paths = [path_of(a) for a, _ in live if path_of(a)]
    ctx.ensure(len(paths) == len(set(paths)), lambda: f"{what}: two vectors share a file: {paths}")
    for a, bits in live if read else ():
        vec.check(ctx, a, bits, what, ("raw", "length", "nones"))
