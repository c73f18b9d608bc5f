import os
import shutil
import sys
import traceback

from . import core
from .checks import CHECKS


def main():
    if len(sys.argv) < 3:
        print("usage: python3 -m opgv check|replay PROPERTY [FILE]")
        return 2
    prop = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        if sys.argv[1] == "check":
            return core.run_check(CHECKS[prop](), tier, seed)
        if sys.argv[1] == "setup":
            core.build()
            core.build("rtn")
            return 0
        if sys.argv[1] == "replay":
            return core.replay(CHECKS[prop](), sys.argv[3])
    except core.HarnessError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        try:
            os.rmdir(core.WORK)
        except OSError:
            pass
    return 2


sys.exit(main())
