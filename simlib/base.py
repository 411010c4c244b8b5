"""What a check is: cases, their evaluation, and what counts."""

import hashlib
import json


class Outcome:
    def __init__(self):
        self.problems = []  # (code, message, t)
        self.stats = {}
        self.shape = None
        self.digest = None
        self.nontrivial = True
        self.ties = None
        self.trace = []

    def bad(self, code, msg, *args, t=None):
        if len(self.problems) < 50:
            self.problems.append((code, msg % args if args else msg, t))

    def take(self, run):
        """Fill in from an executed scenario."""
        self.problems += list(run.rec.problems)
        self.stats = run.stats()
        self.shape = run.shape()
        self.digest = run.digest()
        self.ties = list(run.world.env.tie_log)
        self.trace = trace(run)
        self.nontrivial = self.stats["finished"] >= 2
        return self


def trace(run, limit=400):
    """A readable schedule, fault and event trace."""
    w = run.world
    out = []
    for e in run.rec.entries[:limit]:
        out.append(
            "%5d t=%-10g %-14s %-10s %s %s"
            % (e.seq, e.t - w.t0, e.obj, e.state, e.label.get("ref", "") and dict(e.label) or "", e.copy[4] if e.copy[4] is not None else "")
        )
    return out


def sha(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()


class Check:
    pid = None
    codes = frozenset()
    quick = 12000
    thorough = 120000
    kind = "trace"
    rule = ""
    measure = (
        "SHA-1 of the order of all activity log events (names and states, without times) of a run"
    )
    real = [
        "openclsim.core (containers, resources, movables, processors, events container, logs)",
        "openclsim.model (all activities, expressions, registration)",
        "openclsim.plugins (delay, weather)",
        "simpy kernel (step loop, resources, stores, conditions)",
    ]
    stub = [
        "simpy's choice among timers of one instant: replaced by the seeded scheduler",
        "uuid4 and object hashes: seeded",
        "weather data: generated",
    ]
    assumptions = [
        "scenarios come from the generator in simlib/gen.py; simulated time and sizes are bounded by it",
        "zero-time order of events is explored at timer granularity (fifo, permuted, isolated cascades)",
    ]
    known = ()

    def prepare(self):
        pass

    def warm(self, case):
        """Start what evaluating the case needs, before forking a child for it."""

    def case(self, rng, i):
        raise NotImplementedError

    def evaluate(self, case):
        raise NotImplementedError

    def shrinks(self, case):
        return ()

    def is_known(self, case, problem):
        return False
