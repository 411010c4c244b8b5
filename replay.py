#!/usr/bin/env python3
"""replay.py <file>: run the recorded case again; exit 1 when the violation is reproduced."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from simlib import launch  # noqa: E402

launch.ensure()

import json  # noqa: E402


def main():
    from simlib import props, runner

    doc = json.load(open(sys.argv[1]))
    check = props.get(doc["property"])
    check.known = []
    check.prepare()
    for case in doc.get("warmup", ()):  # what has to have run in the same process before
        check.evaluate(case)
    out = check.evaluate(doc["case"])
    hits = runner.relevant(check, out.problems)
    for p in hits:
        print("%s: %s (t=%s)" % (p[0], p[1], p[2]))
    same = [h for h in hits if runner.signature(h) == doc["signature"]]
    if not same:
        print("not reproduced: %s" % doc["signature"])
        return 0
    print("digest %s (%s)" % (out.digest, "identical" if out.digest == doc["digest"] else "DIFFERENT"))
    if "-v" in sys.argv:
        print("\n".join(out.trace))
    print("VIOLATION property=%s replay=%s" % (doc["property"], sys.argv[1]))
    return 1


code = main()
sys.stdout.flush()
os._exit(code)
