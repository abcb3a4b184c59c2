"""Control of the environment of ruleskit: available memory, random numbers, class-level settings."""
import random

import psutil

_REAL_VM = psutil.virtual_memory
_REAL_RANDINT = random.Random.randint
_PLENTY = 64 * 10**9
_script = []
_default = _PLENTY


def _virtual_memory():
    value = _script.pop(0) if _script else _default
    return _REAL_VM_VALUE._replace(available=value)


def memory(values=(), default=_PLENTY):
    """The next calls to psutil.virtual_memory() report these numbers of available bytes, then `default`."""
    global _default
    _script[:] = list(values)
    _default = default


def install():
    global _REAL_VM_VALUE
    _REAL_VM_VALUE = _REAL_VM()
    psutil.virtual_memory = _virtual_memory


_defaults = None


def _settings():
    from ruleskit import Activation, ClassificationRule, HyperrectangleCondition, RegressionRule, Rule, RuleSet

    return [
        (Activation, "DTYPE", str),
        (Activation, "FORCE_STAT", False),
        (Activation, "WILL_COMPARE", False),
        (Activation, "STORE_RAW", False),
        (Activation, "NCPUS", 1),
        (Rule, "LOCAL_ACTIVATION", True),
        (Rule, "THRESHOLDS", None),
        (Rule, "COMPUTE_SUBATTRIBUTES", False),
        (HyperrectangleCondition, "SORT_ACCORDING_TO", "index"),
        (RuleSet, "CHECK_DUPLICATED", False),
        (RuleSet, "STACKED_FIT", False),
        (RuleSet, "all_features_indexes", {}),
    ], (RegressionRule, ClassificationRule)


def reset(tempdir):
    """Documented default settings, apart from the directory of the files, which is the worker's scratch directory."""
    global _defaults
    if _defaults is None:
        _defaults = _settings()
    for cls, name, value in _defaults[0]:
        setattr(cls, name, type(value)() if isinstance(value, dict) else value)
    for cls in _defaults[1]:
        for name in ("LOCAL_ACTIVATION", "THRESHOLDS", "COMPUTE_SUBATTRIBUTES"):
            if name in cls.__dict__:
                delattr(cls, name)
    from ruleskit import Activation

    Activation.DEFAULT_TEMPDIR = tempdir
    memory()
    random.seed(12345 + _seed())


def _seed():
    import os

    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


SETTING_NAMES = ("DTYPE", "FORCE_STAT", "WILL_COMPARE", "STORE_RAW", "NCPUS", "DEFAULT_TEMPDIR")


def activation_settings():
    from ruleskit import Activation

    return {n: getattr(Activation, n) for n in SETTING_NAMES}


def all_settings():
    """Class-level settings of vectors, rules and rule sets."""
    from ruleskit import HyperrectangleCondition, Rule, RuleSet

    out = activation_settings()
    out.update({f"Rule.{n}": getattr(Rule, n) for n in ("LOCAL_ACTIVATION", "COMPUTE_SUBATTRIBUTES", "THRESHOLDS")})
    out.update({f"RuleSet.{n}": getattr(RuleSet, n) for n in ("STACKED_FIT", "CHECK_DUPLICATED", "NLINES")})
    out["SORT_ACCORDING_TO"] = HyperrectangleCondition.SORT_ACCORDING_TO
    return out
