#!/usr/bin/env python3
"""run.py <property> [quick|thorough]   run one check
   run.py all [quick|thorough]          run every check of MANIFEST.json"""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vt import core  # noqa: E402


def one(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = core.Ctx(pid, tier, seed)
    try:
        importlib.import_module(f"checks.{pid.lower()}").run(ctx)
    except core.CheckError as e:
        if ctx.failures:  # deviations found before the machinery stopped are verdicts all the same
            print(f"note: {e}")
            return ctx.finish()
        print(f"CHECK-ERROR property={pid}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return ctx.finish() if ctx.failures else 2
    return ctx.finish()


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if pid != "all":
        sys.exit(one(pid, tier))
    with open(os.path.join(HERE, "MANIFEST.json")) as f:
        m = json.load(f)
    worst = 0
    for c in m["checks"]:
        worst = max(worst, one(c["property"], tier))
    sys.exit(worst)


if __name__ == "__main__":
    main()
