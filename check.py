#!/usr/bin/env python3
"""check.py <property>        run the check (VERIF_SEED, VERIF_TIER)
   check.py --replay <file>   re-execute a recorded violation"""
import os
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import core  # noqa: E402


def main():
    if sys.argv[1] == "--replay":
        return core.replay(sys.argv[2])
    return core.check(
        sys.argv[1],
        os.environ.get("VERIF_TIER", "quick"),
        int(os.environ.get("VERIF_SEED", "1")),
    )


if __name__ == "__main__":
    try:
        code = main()
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
