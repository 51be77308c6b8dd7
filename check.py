#!/usr/bin/env python3
"""Decides one property: check.py <property> [quick|thorough].

Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: the check
itself failed.
"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import base
import props


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = base.Run(prop, tier, seed)
    try:
        props.TABLE[prop](run)
    except base.Violation as v:
        run.violate(v.what, v.data)
    except base.Enough:
        pass
    except Exception:
        traceback.print_exc()
        run.errors.append(traceback.format_exc())
    return run.finish()


if __name__ == "__main__":
    sys.exit(main())
