"""Explorer core: exhaustive enumeration of a property's case space on the real code of /repo.

A property module defines

    PROPERTY  id                      cases(tier)        generator of JSON-able cases, simplest first
    BOUNDS    {tier: text}            run_case(ctx, c)   executes one case on the real code, raises Violation

The core splits the enumeration over worker processes (case i goes to worker i mod N), so that together they execute
every case of the generator, counts what was executed, writes the evidence file, and turns every violation into a
replayable artefact (`python -m mc.replay <file>`).
"""
import hashlib
import importlib
import itertools
import json
import math
import mmap
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
NPROC = int(os.environ.get("MC_NPROC", "8"))
DEADLINE_S = {"quick": 700, "thorough": 6 * 3600}
CASE_TIMEOUT_S = 120
MAX_VIOLATIONS = 3


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    pass


def _alarm(_s, _f):
    raise CaseTimeout()


def setup_environment():
    """Imports ruleskit from /repo's working tree and takes hold of the sources of nondeterminism."""
    import logging
    import warnings

    sys.dont_write_bytecode = True
    sys.path.insert(0, str(REPO))
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    from mc import env

    env.install()
    import ruleskit

    if Path(ruleskit.__file__).resolve() != (REPO / "ruleskit" / "__init__.py").resolve():
        raise HarnessError(f"ruleskit comes from {ruleskit.__file__}, not from {REPO}")
    logging.disable(logging.CRITICAL)


class Ctx:
    """What one worker sees: counters, a scratch directory, and helpers to check things."""

    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = Path(scratch)
        self.vectors = self.scratch / "vectors"
        self.files = self.scratch / "files"
        for d in (self.vectors, self.files):
            d.mkdir(parents=True, exist_ok=True)
        self.states = set()
        self.transitions = 0
        self.cases = 0
        self.outcomes = {}

    # -- counting
    def step(self, n=1):
        self.transitions += n

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    # -- checking
    @staticmethod
    def fail(msg):
        raise Violation(msg)

    @staticmethod
    def ensure(cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def eq(self, got, want, what, tol=1e-9):
        if not same(got, want, tol):
            raise Violation(f"{what}: got {short(got)}, expected {short(want)}")

    def raises(self, fn, what, types=Exception):
        try:
            r = fn()
        except types:
            return
        raise Violation(f"{what}: expected an error, got {short(r)}")

    # -- isolation between cases
    def reset(self):
        from mc import env

        env.reset(self.vectors)
        for d in (self.vectors, self.files):
            for e in os.scandir(d):
                if e.is_dir(follow_symlinks=False):
                    shutil.rmtree(e.path)
                else:
                    os.unlink(e.path)


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def isnan(x):
    try:
        return x is not None and not isinstance(x, str) and math.isnan(x)
    except TypeError:
        return False


def same(a, b, tol=1e-9):
    """Value equality: numbers up to a relative 1e-9, NaN equal to NaN, sequences element by element."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and str(a) == str(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if hasattr(a, "tolist") and not isinstance(a, (int, float)):
        a = a.tolist()
    if hasattr(b, "tolist") and not isinstance(b, (int, float)):
        b = b.tolist()
    sa, sb = isinstance(a, (list, tuple)), isinstance(b, (list, tuple))
    if sa or sb:
        return sa and sb and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)) or isinstance(b, (set, frozenset)):
        return a == b
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if math.isnan(fa) or math.isnan(fb):
        return math.isnan(fa) and math.isnan(fb)
    if math.isinf(fa) or math.isinf(fb):
        return fa == fb
    return abs(fa - fb) <= tol * max(1.0, abs(fa), abs(fb))


def load_module(prop):
    return importlib.import_module(f"mc.props.{prop.lower()}")


def one_case(mod, ctx, case):
    """Executes one case; returns None, or a description of the violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT_S)
    try:
        ctx.reset()
        mod.run_case(ctx, case)
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return f"the case did not end within {CASE_TIMEOUT_S} s"
    except HarnessError:
        raise
    except Exception as e:  # the code under test raised where the property says it works
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{Path(f.filename).name}:{f.lineno}" for f in tb if "/repo/" in f.filename][-3:]
        return f"unexpected {type(e).__name__}: {e} (at {' < '.join(reversed(where)) or 'harness ' + str(tb[-1])})"
    finally:
        signal.alarm(0)


def worker(mod, k, n, prop, tier, seed, scratch, deadline, out, current):
    ctx = Ctx(prop, tier, seed, scratch)
    res = {"violations": [], "samples": [], "complete": True, "error": None}
    prelude = []
    try:
        for i, case in enumerate(mod.cases(tier)):
            if i % n != k:
                continue
            if time.time() > deadline:
                res["complete"] = False
                break
            current[8 * k : 8 * k + 8] = (i + 1).to_bytes(8, "little")
            msg = one_case(mod, ctx, case)
            ctx.cases += 1
            if len(res["samples"]) < 1 and ctx.cases >= 3:
                res["samples"].append(case)
            if msg is not None:
                again = one_case(mod, ctx, case)
                res["violations"].append(
                    {"case": case, "message": msg, "alone": again == msg, "prelude": [] if again else prelude[-40:]}
                )
                if len(res["violations"]) >= MAX_VIOLATIONS:
                    res["complete"] = False
                    break
            prelude.append(case)
            if len(prelude) > 80:
                del prelude[:40]
    except BaseException as e:  # noqa
        res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    res.update(states=ctx.states, transitions=ctx.transitions, cases=ctx.cases, outcomes=ctx.outcomes)
    with open(out, "wb") as f:
        pickle.dump(res, f)


CRASHES = (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT)


def crashed(case, signum):
    """The result of a worker whose interpreter was ended by the case it was executing."""
    msg = f"the interpreter was ended by {signal.Signals(signum).name}"
    violation = {"case": case, "message": msg, "alone": False, "prelude": []}
    return {
        "violations": [violation],
        "samples": [],
        "complete": False,
        "error": None,
        "states": set(),
        "transitions": 0,
        "cases": 0,
        "outcomes": {},
    }


def scratch_root():
    for d in ("/dev/shm", None):
        try:
            return Path(tempfile.mkdtemp(prefix="mc_", dir=d))
        except OSError:
            continue
    raise HarnessError("no scratch directory")


def load_known():
    path = VERIF / "known_findings.json"
    return json.loads(path.read_text()) if path.is_file() else {"known": [], "fixed": []}


def run(prop, tier, seed):
    t0 = time.time()
    setup_environment()
    mod = load_module(prop)
    root = scratch_root()
    try:
        deadline = t0 + DEADLINE_S[tier]
        pids = {}
        outs = []
        n = NPROC
        current = mmap.mmap(-1, 8 * n)  # shared with the workers: 1 + the number of the case each is executing
        signals = {}
        sys.stdout.flush()
        for k in range(n):
            out = root / f"result{k}.pkl"
            outs.append(out)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    worker(mod, k, n, prop, tier, seed, root / f"w{k}", deadline, out, current)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            pids[pid] = k
        while pids:
            pid, status = os.wait()
            k = pids.pop(pid, None)
            if k is not None and os.WIFSIGNALED(status):
                signals[k] = os.WTERMSIG(status)
        results = []
        for k, o in enumerate(outs):
            if not o.is_file():
                i = int.from_bytes(current[8 * k : 8 * k + 8], "little") - 1
                if signals.get(k) not in CRASHES or i < 0:
                    raise HarnessError("a worker died")
                results.append(crashed(next(itertools.islice(mod.cases(tier), i, None)), signals[k]))
                continue
            with open(o, "rb") as f:
                results.append(pickle.load(f))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    errors = [r["error"] for r in results if r["error"]]
    if errors:
        raise HarnessError(errors[0])

    known = [k for k in load_known()["known"] if k["property"] == prop]
    violations, reported = [], set()
    for r in results:
        for v in r["violations"]:
            hit = next((k for k in known if k["case"] == v["case"] and k["message"] == v["message"]), None)
            if hit:
                reported.add(hit["what"])
            else:
                violations.append(v)
    for what in sorted(reported):
        print(f"KNOWN-FINDING: property={prop} {what}")

    states = set().union(*[r["states"] for r in results])
    outcomes = {}
    for r in results:
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
    cases = sum(r["cases"] for r in results)
    complete = all(r["complete"] for r in results)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": cases,
            "samples": [s for r in results for s in r["samples"]][:4],
            "exhaustive": complete,
            "bounds": mod.BOUNDS[tier],
            "distinct_outcomes": outcomes,
            "meaning": "a trace is one enumerated case (an input, history, configuration, fault or schedule) executed "
            "from a fresh state on the code of /repo and compared, step by step, with the reference model; a transition"
            " is one operation of the real code inside a trace; a state is a distinct observed (model, code) state",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    edir = VERIF / "evidence"
    edir.mkdir(exist_ok=True)
    (edir / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str) + "\n")
    print(
        f"{prop} {tier}: traces={cases} transitions={evidence['coverage']['transitions']} states={len(states)} "
        f"exhaustive={complete} outcomes={outcomes} violations={len(violations)} wall={evidence['wall_s']}s"
    )
    if violations:
        rdir = edir / "replay"
        rdir.mkdir(exist_ok=True)
        violations.sort(key=lambda v: len(json.dumps(v["case"], default=str)))
        for i, v in enumerate(violations[:MAX_VIOLATIONS]):
            path = rdir / f"{prop}-{i}.json"
            path.write_text(json.dumps({"property": prop, "tier": tier, **v}, indent=1, default=str) + "\n")
            print(f"  {v['message']}\n  case: {short(v['case'], 500)}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0
