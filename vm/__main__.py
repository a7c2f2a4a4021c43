"""
python -m vm C01            run the check of a property (VERIF_SEED, VERIF_TIER)
python -m vm --replay FILE  re-run a recorded violation
"""

import os
import sys
import zlib

from vm import core


def main(argv):
    if len(argv) == 2 and argv[0] == "--replay":
        return core.replay(argv[1])
    seed = os.environ.get("VERIF_SEED", "0").strip() or "0"
    seed = int(seed) if seed.lstrip("-").isdigit() else zlib.crc32(seed.encode())
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return core.run_check(argv[0], tier, seed)


if __name__ == "__main__":
    CODE = 2
    try:
        CODE = main(sys.argv[1:])
    except Exception:  # pylint: disable=broad-except
        import traceback

        traceback.print_exc()
    sys.stdout.flush()
    sys.exit(CODE)
