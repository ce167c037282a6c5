#!/usr/bin/env python3
"""check.py ID: decide one property.  VERIF_TIER and VERIF_SEED as usual.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check failed."""
import os, shutil, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.core import Run, ToolError, Violation, BUILD
from vlib import props


def main():
    prop = sys.argv[1]
    run = Run(prop)
    try:
        try:
            props.CHECKS[prop](run)
        except Violation:
            pass
        return run.finish()
    except ToolError as e:
        print("TOOL ERROR in the check of %s: %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(run.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
