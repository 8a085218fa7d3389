#!/usr/bin/env python3
"""python3 check.py <property id>: decide one property statically on /repo's current source."""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa.ctx import Ctx                      # noqa: E402
from sa.loader import AnchorError           # noqa: E402
from sa.report import Report, finish        # noqa: E402
from sa import registry                     # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Report(pid)
    try:
        ctx = Ctx(tier=tier)
        registry.RULES[pid](ctx, rep)
        if not rep.obligations:
            raise AnchorError("the rule matched nothing")
        return finish(rep, tier, seed)
    except AnchorError as e:
        print(f"{pid}: analysis cannot decide: {e}")
        return 3
    except Exception:
        traceback.print_exc()
        return 4


if __name__ == "__main__":
    sys.exit(main())
