"""Run scenarios in an interpreter with another hash seed; results as JSON.

Without arguments: a list of scenarios from stdin, with real object hashes and ids.  With
"serve": one scenario per line of stdin, each in a forked child of this interpreter.
"""

import json
import sys

from . import build


def main():
    scs = json.load(sys.stdin)
    # real object hashes instead of the seeded ones
    del build.Seeded.__hash__
    build.Seeded.__hash__ = object.__hash__
    build.World._uuid4 = staticmethod(build.uuid_module.uuid4)
    from .diffs import plain_run, result

    junk = [object() for _ in range(int(sys.flags.hash_randomization) * 37)]
    out = []
    for k, sc in enumerate(scs):
        if k % 2:
            sc["ids"] = 1
        out.append(result(plain_run(sc), per=True))
    del junk
    json.dump(out, sys.stdout, default=str)


def one(sc):
    from .diffs import plain_run, result

    return result(plain_run(sc), per=True)


def serve():
    from . import diffs  # noqa: F401
    from .isolate import ChildError, in_child

    for line in sys.stdin:
        try:
            answer = ["ok", in_child(one, json.loads(line))]
        except ChildError as e:
            answer = ["error", str(e)]
        sys.stdout.write(json.dumps(answer, default=str) + "\n")
        sys.stdout.flush()


if "serve" in sys.argv:
    serve()
else:
    main()
