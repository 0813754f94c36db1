#!/opt/venv/bin/python
"""run.py <property id> [--tier quick|thorough]: decide one property."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import common  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    common.limit_memory()
    ctx = common.Ctx(pid, tier, seed)
    mod = importlib.import_module("mc.checks." + pid.lower())
    try:
        mod.run(ctx)
    except BaseException as e:  # noqa
        if isinstance(e, KeyboardInterrupt) or not common.from_sut(e):
            traceback.print_exc()
            if isinstance(e, KeyboardInterrupt) or not ctx.violations:
                return 2
            return common.finish(ctx)       # what was found before stands
        ctx.violation(f"exception:{type(e).__name__}",
                      f"the code under test failed with {type(e).__name__}: {e}\n{traceback.format_exc()}")
    return common.finish(ctx)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
