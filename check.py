#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--runs N] [--wall S]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from simlib import launch  # noqa: E402

launch.ensure()

import argparse  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    a = ap.parse_args()
    import traceback

    try:
        from simlib import props, runner

        check = props.get(a.property)
        code = runner.main(check, a.seed, a.tier, wall=a.wall, total=a.runs)
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)


main()
