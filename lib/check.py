#!/usr/bin/env python3
"""python3 lib/check.py <property id>: decide one property on /repo's current tree.

Exit 0: held.  Exit 1: a line VIOLATION property=<id> replay=<path>.  Exit 2: no answer."""
import os
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import sa                                # noqa: E402
import report                            # noqa: E402
from registry import CHECKS              # noqa: E402


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py <%s> [quick|thorough]" % "|".join(sorted(CHECKS)))
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    t0 = time.time()
    c = CHECKS[pid]
    try:
        parts = [make(tier) for make in c["components"]]
    except sa.Broken as e:
        print("%s: no answer: %s" % (pid, sa.short(str(e), 600)))
        return 2
    except Exception:
        traceback.print_exc()
        print("%s: no answer: internal error" % pid)
        return 2
    report.finish(pid, tier, c["level"], parts, t0, c["explanation"],
                  "python3 lib/check.py %s%s" % (pid, " thorough" if tier == "thorough" else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
