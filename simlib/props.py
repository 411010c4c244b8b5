"""The properties and how each one is explored."""

from . import gen
from .base import Check, Outcome
from .observe import observer_calls
from .run import execute

ALL = {}


def define(cls):
    ALL[cls.pid] = cls
    return cls


def get(pid):
    from . import diffs, direct, special, tables  # noqa: F401

    return ALL[pid]()


class TraceCheck(Check):
    """One run, judged by the oracles while it proceeds and afterwards."""

    profiles = ((1, {}),)
    rule = (
        "a case is a generated scenario (activities, objects, faults) with a seeded schedule; it is "
        "non-trivial when at least two executions of activities finished; distinct = distinct interleavings"
    )

    def case(self, rng, i):
        weights = [w for w, _ in self.profiles]
        prof = rng.choices([p for _, p in self.profiles], weights)[0]
        return {"sc": gen.make(rng, prof)}

    def evaluate(self, case):
        return Outcome().take(execute(case["sc"], observe=observer_calls))


DEFAULT = {}
TIGHT = {"tight": 1, "fleet": 3, "contend": 3, "tree": 0, "mixed": 1, "multi": 1}
CONTEND = {"contend": 3, "fleet": 2, "tree": 0, "slots": 0.5, "keep": 0.5, "holds": 0.8, "actors": 0.8}
KEEP = {"contend": 2, "fleet": 3, "tree": 0, "mixed": 0, "multi": 0, "keep": 1, "holds": 0.7, "actors": 0.7}
SQUEEZE = {"rush": 0, "squeeze": 1, "contend": 0, "fleet": 0, "tree": 0, "mixed": 0, "multi": 0, "keep": 1}
MIDWAY = {"rush": 0, "midway": 1, "squeeze": 0, "contend": 0, "fleet": 0, "tree": 0, "mixed": 0, "multi": 0}
TREE = {"tree": 3, "mixed": 1, "fleet": 0, "contend": 0, "multi": 0}
PLUG = {"plugins": 1, "tree": 2, "fleet": 2, "contend": 1, "multi": 0.5}
WEATHER = {"plugins": 1, "weather": 0.9, "stall": 0.2, "tree": 2, "fleet": 2}
FLEET = {"fleet": 3, "computed_move": 0.8, "engine": 0.3, "tree": 0, "contend": 0, "multi": 2}
RATES = {"fleet": 3, "multi": 1, "contend": 1, "rates": 1, "callable": 0.6, "manoeuvre": 0.4, "tree": 0}
MULTI = {"rush": 0, "fleet": 0, "tree": 0, "mixed": 0, "contend": 0, "multi": 1}
RUSH = {"rush": 1, "midway": 0, "squeeze": 0, "contend": 0, "fleet": 0, "tree": 0, "mixed": 0, "multi": 0}
FLOAT = {"float": 1, "tight": 0.5}
EVENTS = {"tree": 3, "mixed": 2, "fleet": 1, "contend": 1, "se": 1, "actors": 1, "subs": 0.5, "content": 0.7}
LOOPS = {"fleet": 2, "tree": 2, "mixed": 1, "contend": 0, "multi": 0, "single": 0.4, "tight": 0.5}
APART = {"late": 0.6, "twin": 0.7, "tree": 3, "contend": 1, "fleet": 1, "multi": 0, "squeeze": 0, "se": 0.8}
RAISE = {"raise": 0.3, "plugins": 0.6}

CONTENT = ((2, DEFAULT), (2, TIGHT), (1, CONTEND), (1, SQUEEZE), (1, MULTI), (1, FLOAT), (1, KEEP), (2, MIDWAY), (1, RUSH))
STRUCT = ((2, DEFAULT), (3, TREE), (2, LOOPS), (1, EVENTS), (1, PLUG), (2, APART))


@define
class C01(TraceCheck):
    pid, codes, profiles = "C01", {"mass"}, CONTENT


@define
class C02(TraceCheck):
    pid, codes = "C02", {"bounds", "amount"}
    profiles = ((1, DEFAULT), (3, TIGHT), (2, CONTEND), (1, SQUEEZE), (1, MULTI), (2, FLOAT), (3, MIDWAY), (1, RUSH))


@define
class C03(TraceCheck):
    pid, codes = "C03", {"amount", "idle", "mass"}
    profiles = ((1, DEFAULT), (3, TIGHT), (2, CONTEND), (1, SQUEEZE), (2, MULTI), (2, FLOAT), (3, MIDWAY))


@define
class C04(TraceCheck):
    pid, codes, profiles = "C04", {"reserve"}, CONTENT


@define
class C05(TraceCheck):
    pid, codes = "C05", {"slots"}
    profiles = ((1, DEFAULT), (3, CONTEND), (1, TIGHT), (2, KEEP), (2, SQUEEZE), (1, PLUG), (1, RUSH))


@define
class C06(TraceCheck):
    pid, codes = "C06", {"release", "idle", "slots"}
    profiles = ((1, CONTEND), (3, KEEP), (3, SQUEEZE), (1, RAISE))


@define
class C07(TraceCheck):
    pid, codes = "C07", {"records", "waitrec"}
    profiles = ((2, DEFAULT), (2, TREE), (1, EVENTS), (1, CONTEND), (1, PLUG), (1, TIGHT), (1, MULTI), (2, MIDWAY), (2, RUSH))


@define
class C08(TraceCheck):
    pid, codes = "C08", {"duration"}
    profiles = ((1, DEFAULT), (3, RATES), (1, TREE), (1, TIGHT), (1, MULTI), (1, CONTEND), (1, MIDWAY))


@define
class C09(TraceCheck):
    pid, codes, profiles = "C09", {"seqorder", "idle", "records"}, STRUCT


@define
class C10(TraceCheck):
    pid, codes, profiles = "C10", {"parallel", "idle", "records"}, STRUCT


@define
class C11(TraceCheck):
    pid, codes = "C11", {"loop", "idle", "records"}
    profiles = ((1, DEFAULT), (2, TREE), (4, LOOPS), (1, EVENTS), (1, APART))


@define
class C12(TraceCheck):
    pid, codes = "C12", {"begin", "idle", "records", "waitrec"}
    profiles = ((1, DEFAULT), (4, EVENTS), (1, TREE), (1, CONTEND), (3, APART), (3, RUSH))


@define
class C13(TraceCheck):
    pid, codes = "C13", {"cevent", "begin", "waitrec"}
    profiles = (
        (1, dict(EVENTS, subs=1)),
        (1, dict(TIGHT, subs=1, actors=1)),
        (1, dict(MULTI, subs=1, actors=1)),
        (1, dict(EVENTS, subs=1, float=1)),
        (1, dict(RUSH, subs=1, actors=1)),
    )


@define
class C14(TraceCheck):
    pid, codes = "C14", {"plugin", "records", "waitrec"}
    quick = 9000
    profiles = ((1, DEFAULT), (4, PLUG), (1, dict(PLUG, tree=0, contend=2)), (1, dict(PLUG, se=1)))


@define
class C15(TraceCheck):
    pid, codes, profiles = "C15", {"weather"}, ((5, WEATHER), (1, PLUG))
    quick = 7500


@define
class C22(TraceCheck):
    pid, codes = "C22", {"history", "records"}
    quick = 9000
    profiles = (
        (1, DEFAULT), (2, dict(DEFAULT, look=0.7)), (1, dict(TREE, look=0.3)), (1, dict(CONTEND, look=0.3)),
        (1, dict(PLUG, look=0.3)), (1, dict(MULTI, look=0.3)), (1, FLEET), (1, RAISE), (1, dict(MIDWAY, look=1)),
    )


@define
class C23(TraceCheck):
    pid, codes = "C23", {"idle"}
    profiles = CONTENT + ((2, EVENTS), (2, LOOPS), (1, TREE), (1, PLUG))
