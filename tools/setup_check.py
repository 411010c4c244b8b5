#!/usr/bin/env python3
"""Nothing to build: make sure that the simulator runs against /repo's working tree."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib import launch  # noqa: E402

launch.ensure()

import random  # noqa: E402

import openclsim  # noqa: E402

from simlib import gen  # noqa: E402
from simlib.run import execute  # noqa: E402

for i in range(5):
    execute(gen.make(random.Random("setup/%d" % i)))
print("simulator ready, openclsim from", os.path.dirname(openclsim.__file__))
