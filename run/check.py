#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the
check itself failed."""
import argparse, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import Run, ToolError, finish
import plans


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    run = Run(a.prop, a.tier, a.seed)
    try:
        if a.replay:
            x = json.load(open(a.replay))
            run.check(x["harness"], [x["commands"]], spec=x["spec"], shards=1, race=x.get("race", False), at=x.get("place", 0))
        else:
            getattr(plans, a.prop)(run)
        return finish(run)
    except ToolError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()


sys.exit(main())
