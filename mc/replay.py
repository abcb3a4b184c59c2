"""python -m mc.replay FILE: executes the recorded case again, alone, and says whether it still violates the property."""
import json
import shutil
import sys

from mc import core


def main():
    rec = json.loads(open(sys.argv[1]).read())
    core.setup_environment()
    mod = core.load_module(rec["property"])
    root = core.scratch_root()
    try:
        ctx = core.Ctx(rec["property"], rec["tier"], 1, root)
        for c in rec.get("prelude", []):
            core.one_case(mod, ctx, c)
        msg = core.one_case(mod, ctx, rec["case"])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print(f"case: {rec['case']}")
    print(f"VIOLATED: {msg}" if msg else "held")
    return 1 if msg else 0


if __name__ == "__main__":
    sys.exit(main())
