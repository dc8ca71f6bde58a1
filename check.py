#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   or   check.py --setup"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core


def main():
    if sys.argv[1:] == ["--setup"]:
        core.build()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from vf import suites
    ck = core.Check(prop, tier, seed)
    try:
        suites.ALL[prop](ck)
        return ck.finish()
    except core.ToolError as e:
        print(f"tool error: {e}", file=sys.stderr)
    except Exception:
        traceback.print_exc()
    return 2


if __name__ == "__main__":
    sys.exit(main())
