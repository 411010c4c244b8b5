"""Checks of everything that is derived from recorded histories: tables, exports, charts,
dependencies and critical paths."""

import copy
import datetime as dt
import io as text_io
import os
import random

from . import gen
from .base import Outcome, sha, trace
from .diffs import DiffCheck
from .env import StepCap
from .props import CONTEND, DEFAULT, EVENTS, FLEET, LOOPS, MULTI, PLUG, RUSH, TIGHT, TREE, define
from .run import Hang, HarnessError, Run, cpu_guard, in_repo

TWINS = dict(CONTEND, twin=0.8, late=0)
STRUCT = ("seq", "par", "while", "repeat", "single")


def nan(v):
    return v is None or v != v


def recorded(sc, out, checks=False, cpu=20):
    """Execute a scenario for its history; None when it did not end well."""
    with cpu_guard(cpu):
        run = Run(sc, checks=False)
        run.go()
        run.rec.observe(None)
    out.stats = run.stats()
    out.shape = run.shape()
    out.ties = list(run.world.env.tie_log)
    out.trace = trace(run)
    out.nontrivial = out.stats["finished"] >= 2
    out.digest = run.digest()
    return run


def everything(w):
    """Arguments for the critical path classes."""
    return dict(
        env=w.env,
        object_list=[o for o in w.objs.values()],
        activity_list=list(w.top),
    )


class Cut:
    """Run only a part of a scenario: a simulation that is paused, or stopped for good."""

    @staticmethod
    def draw(rng, sc):
        sc.pop("ops", None)
        k = rng.random()
        if k < 0.3:
            sc["horizon"] = rng.choice([0.25, 1, 2, 3, 5, 8, 12])
        elif k < 0.45:
            sc["stop_steps"] = rng.choice([0, 1, 2, 5, 10, 20, 50, 100])
        return sc


def run_cut(sc, out):
    """As ``recorded``, stopped between two events when the case says so."""
    if "stop_steps" not in sc:
        return recorded(sc, out)
    with cpu_guard(20):
        run = Run(sc, checks=False)
        w = run.world
        try:
            w.start()
            for _ in range(sc["stop_steps"]):
                if w.env.peek() >= run.end:
                    break
                w.env.step()
            w.fired("pause")
        except StepCap:
            run.capped = True
        except (Hang, HarnessError):
            raise
        except Exception as e:  # noqa: BLE001
            run.error = e
        run.rec.observe(None)
    out.stats = run.stats()
    out.shape = run.shape()
    out.ties = list(w.env.tie_log)
    out.trace = trace(run)
    out.nontrivial = len(run.rec.entries) >= 2
    out.digest = run.digest()
    return run


# ----------------------------------------------------------------------
# C24
def longest(acts, deps):
    """The activities on the longest chains, for every possible end time.

    ``acts`` maps an id to (start, end, duration), ``deps`` is a list of (cause, effect).
    Returns (length, [set of ids per end time], up, down) with an independent computation:
    memoised relaxation in order of time, as all chains go forward in time.
    """
    zero = {a for a, v in acts.items() if v[2] == 0}
    after = {}
    for c, e in set(deps):
        if c in acts and e in acts:
            after.setdefault(c, set()).add(e)
    # what follows an activity, seen through activities that take no time
    follow = {}
    for a in acts:
        if a in zero:
            continue
        todo, seen, res = list(after.get(a, ())), set(), set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in zero:
                todo += after.get(x, ())
            else:
                res.add(x)
        follow[a] = res
    order = sorted(follow, key=lambda a: (acts[a][0], acts[a][1]))
    up = {a: acts[a][2] for a in order}
    for a in order:
        for b in follow[a]:
            up[b] = max(up[b], up[a] + acts[b][2])
    best = max(up.values(), default=0)
    sets = []
    for end in {acts[a][1] for a in order if up[a] >= best - 1e-9}:
        down = {}
        for a in reversed(order):
            opts = [down[b] + acts[b][2] for b in follow[a] if down[b] is not None]
            if acts[a][1] == end:
                opts.append(0)
            down[a] = max(opts, default=None)
        sets.append(
            {a for a in order if down[a] is not None and up[a] + down[a] >= best - 1e-9}
        )
    return best, sets


def longest_any(acts, deps, tol):
    """Every activity on a chain that is at most tol shorter than the longest."""
    order = sorted(acts, key=lambda a: (acts[a][0], acts[a][1]))
    follow = {}
    for c, e in set(deps):
        follow.setdefault(c, set()).add(e)
    up = {a: acts[a][2] for a in order}
    for a in order:
        for b in follow.get(a, ()):
            up[b] = max(up[b], up[a] + acts[b][2])
    down = {}
    for a in reversed(order):
        down[a] = max([down[b] + acts[b][2] for b in follow.get(a, ())], default=0)
    best = max(up.values(), default=0)
    return {a for a in order if up[a] + down[a] >= best - tol}


def synth_case(rng):
    """A made up history: activities with times that match, and dependencies."""
    kind = rng.choice(["random", "random", "random", "chain", "ladder", "grid", "deep"])
    acts, deps = [], []
    if kind == "chain" or kind == "deep":
        n = rng.choice([1, 2, 5, 40, 200]) if kind == "chain" else rng.choice([600, 1100, 1600])
        t = 0
        for i in range(n):
            d = rng.choice([1, 1, 2, 3, 4])
            acts.append([t, t + d])
            if i:
                deps.append([i - 1, i])
            t += d
        if rng.random() < 0.5:  # a second chain over a part of the first
            a = rng.randrange(n)
            b = min(n - 1, a + rng.choice([0, 1, 3]))
            acts.append([acts[a][0], acts[b][1]])
            if a > 0:
                deps.append([a - 1, len(acts) - 1])
            if b < n - 1:
                deps.append([len(acts) - 1, b + 1])
    elif kind == "ladder":
        t, last = 0, []
        for _ in range(rng.choice([2, 3, 5, 12, 25])):
            d = rng.choice([1, 2])
            new = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                if d == 2 and rng.random() < 0.4:
                    acts += [[t, t + 1], [t + 1, t + 2]]
                    deps.append([len(acts) - 2, len(acts) - 1])
                    new.append([len(acts) - 2, len(acts) - 1])
                else:
                    acts.append([t, t + d])
                    new.append([len(acts) - 1] * 2)
            for a in last:
                for b in new:
                    if rng.random() < 0.85:
                        deps.append([a[1], b[0]])
            last = new
            t += d
    else:
        span = rng.choice([4, 6, 10, 20])
        n = rng.choice([1, 2, 4, 8, 15, 30, 60])
        for _ in range(n):
            a = rng.randrange(span)
            d = rng.choice([0, 1, 1, 2, 3, 5]) if kind == "random" else 1
            acts.append([a, a + d])
        for i, x in enumerate(acts):
            for j, y in enumerate(acts):
                if i != j and x[1] == y[0] and not (x == y and x[0] == x[1] and j < i):
                    if rng.random() < 0.7:
                        deps.append([i, j])
    faults = {}
    if rng.random() < 0.5 and deps:
        faults["lost"] = rng.choice([1, 1, 2, 5])
    if rng.random() < 0.4 and deps:
        faults["dup"] = rng.choice([1, 2, 5])
    extra = {}
    if rng.random() < 0.1:
        extra["bad"] = [
            rng.choice(["negative", "negative", "gap", "gap", "column", "unknown", "words", "list"]), rng.getrandbits(20),
        ]
    return {
        **extra,
        "kind": kind,
        "acts": acts,
        "deps": deps,
        "faults": faults,
        "perm": rng.getrandbits(30),
        "unit": rng.choice([0.25, 0.5, 1, 3600]),
        "objs": rng.choice([1, 2, 3]),
        "t0": rng.choice([0, 0, 1700000000]),
        "floats": rng.random() < 0.2,
    }


@define
class C24(DiffCheck):
    """Critical = on a longest chain of dependent recorded activities."""

    pid, codes = "C24", {"critical"}
    profiles = ((2, DEFAULT), (2, TREE), (1, CONTEND), (1, PLUG), (1, LOOPS), (1, EVENTS), (1, FLEET), (1, RUSH), (1, TWINS))
    quick = 3600
    thorough = 60000
    rule = (
        "a case is the recorded history of a simulated run with its dependencies (found in either way), "
        "or a made up history (chains of up to 1600 activities, ladders with many equal chains, "
        "activities without duration), with dependencies lost, duplicated and reordered by the seed; "
        "non-trivial = two or more activities"
    )
    measure = "SHA-1 of the history (simulated runs) or of the generated activities and dependencies"
    real = [
        "openclsim.critical_path (recorded activities, dependencies, simulation graph)",
        "the complete simulation stack for simulated histories",
    ]

    def case(self, rng, i):
        if i % 2:
            return {"synth": synth_case(rng)}
        sc = self.scenario(rng)
        sc = Cut.draw(rng, sc)
        way = rng.choice(["records", "simpy"])
        if way == "simpy":
            sc = traceable(sc)
        return {
            "sc": sc, "way": way, "lost": rng.choice([0, 0, 0, 1, 3]), "dup": rng.choice([0, 0, 2]),
            "shuffle": rng.getrandbits(30),
        }

    def compare(self, case, out):
        if "synth" in case:
            return self.synth(case["synth"], out)
        run = run_cut(copy.deepcopy(case["sc"]), out)
        if run.error is not None or run.capped:
            out.nontrivial = False
            return
        w = run.world
        cp = finder(case["way"])(**everything(w))
        real = cp.get_dependency_list
        used = []

        def faulty():
            if cp.dependency_list is not None and used:
                return cp.dependency_list
            deps = sorted_deps(cp, list(real()))
            rng = random.Random(case["shuffle"])
            rng.shuffle(deps)
            if case["lost"]:
                deps = deps[min(case["lost"], len(deps)):]
                out.stats["counts"]["dependency_lost"] = case["lost"]
            for _ in range(case["dup"] if deps else 0):
                deps.append(rng.choice(deps))
                out.stats["counts"]["dependency_duplicated"] = case["dup"]
            cp.dependency_list = deps
            used[:] = [deps]
            return deps

        cp.get_dependency_list = faulty
        table = cp.get_critical_path_df()
        df = cp.get_recorded_activity_df()
        judge_critical(df, used[0], table, out)
        # asking again gives the same
        again = cp.get_critical_path_df()
        if again is not table and not again.equals(table):
            out.bad("critical", "the second critical path differs from the first")

    def synth(self, s, out):
        import pandas as pd

        from openclsim.critical_path.base_cp import BaseCP
        from openclsim.critical_path.simulation_graph import SimulationGraph

        rng = random.Random(s["perm"])
        unit = s["unit"]
        rows = []
        for i, (a, b) in enumerate(s["acts"]):
            a, b = a * unit, b * unit
            if not s["floats"]:
                a, b = [dt.datetime(1970, 1, 1) + dt.timedelta(seconds=s["t0"] + x) for x in (a, b)]
            objs = ["obj%d" % k for k in range(rng.randint(0, s["objs"]))]
            if not objs or rng.random() < 0.5:
                objs.append("Activity")
            for o in objs:
                rows.append(
                    ["act%d" % i, "name%d" % i, o, a, b, b - a, rng.choice(["ACTIVE", "WAITING"]), "cp%d" % i]
                )
        bad = self.spoil(s, rows)
        rng.shuffle(rows)
        df = pd.DataFrame(
            rows,
            columns=[
                "ActivityID", "Activity", "SimulationObject", "start_time", "end_time", "duration",
                "state", "cp_activity_id",
            ],
        )
        deps = [("cp%d" % a, "cp%d" % b) for a, b in s["deps"]]
        rng.shuffle(deps)
        counts = {}
        if bad:
            return self.refused(s, bad, df, deps, out)
        lost = min(s["faults"].get("lost", 0), len(deps))
        deps = deps[lost:]
        for _ in range(s["faults"].get("dup", 0) if deps else 0):
            deps.append(rng.choice(deps))
        if lost:
            counts["dependency_lost"] = lost
        if s["faults"].get("dup"):
            counts["dependency_duplicated"] = s["faults"]["dup"]
        out.stats = {"counts": counts}
        out.shape = sha(s)[:16]
        out.digest = sha([s, counts])
        out.nontrivial = len(s["acts"]) >= 2

        class Direct(BaseCP):
            def get_dependency_list(self):
                self.dependency_list = list(deps)
                return self.dependency_list

        with cpu_guard(60):
            cp = Direct(env=None, object_list=[], activity_list=[])
            cp.recorded_activities_df = df.copy()
            table = cp.get_critical_path_df()
            direct = SimulationGraph(df.copy(), list(deps)).get_list_critical_activities()
        judge_critical(df, deps, table, out, direct)

    def spoil(self, s, rows):
        """A history that makes no sense, where the seed wants one and it is possible."""
        bad, i = s.get("bad") or (None, 0)
        acts = s["acts"]
        if bad == "negative":
            some = [k for k, (a, b) in enumerate(acts) if (b - a) * s["unit"] >= 1]
            if not some:
                return None
            i = some[i % len(some)]
            for r in rows:
                if r[7] == "cp%d" % i:
                    r[3], r[4], r[5] = r[4], r[3], -r[5]
            return [bad]
        if bad == "gap":
            some = [
                [a, b] for a in range(len(acts)) for b in range(len(acts))
                if a != b and acts[a][0] < acts[a][1] and acts[b][0] < acts[b][1]
                and abs(acts[a][1] - acts[b][0]) * s["unit"] >= 1
            ] if len(acts) <= 60 else []
            return [bad, some[i % len(some)]] if some else None
        if bad == "unknown" and not any(a < b for a, b in acts):
            return None
        return [bad, i] if bad else None

    def refused(self, s, bad, df, deps, out):
        from openclsim.critical_path.simulation_graph import SimulationGraph

        out.stats = {"counts": {"bad_" + bad[0]: 1}}
        out.shape = sha(s)[:16]
        out.digest = sha([s, bad])
        out.nontrivial = True
        if bad[0] == "gap":
            deps = deps + [tuple("cp%d" % k for k in bad[1])]
        elif bad[0] == "column":
            cols = ["Activity", "SimulationObject", "start_time", "end_time", "state", "cp_activity_id"]
            df = df.drop(columns=cols[bad[1] % len(cols)])
        elif bad[0] == "unknown":
            known = [k for k, (a, b) in enumerate(s["acts"]) if a < b]
            pair = ["cp%d" % known[bad[1] % len(known)], "nobody"]
            deps = deps + [tuple(pair if bad[1] % 2 else pair[::-1])]
        elif bad[0] == "words":
            df = df.assign(start_time="a", end_time="b")
        elif bad[0] == "list":
            deps = tuple(deps)
        try:
            with cpu_guard(60):
                have = SimulationGraph(df, deps).get_list_critical_activities()
        except Hang:
            raise
        except Exception:  # noqa: BLE001
            return
        out.bad("critical", "a history with bad %s was accepted: %s", bad, have)

    def shrinks(self, case):
        if "synth" in case:
            s = case["synth"]
            n = len(s["acts"])
            for size in sorted({n // 2, n // 4, 8, 1}, reverse=True):
                if not 0 < size < n:
                    continue
                for lo in range(0, n, size) if n <= 64 else range(0, n, max(size, n // 16)):
                    keep = [i for i in range(n) if not lo <= i < lo + size]
                    new = {a: b for b, a in enumerate(keep)}
                    yield {
                        "synth": dict(
                            s, acts=[s["acts"][i] for i in keep],
                            deps=[[new[a], new[b]] for a, b in s["deps"] if a in new and b in new],
                        )
                    }
            for j in range(len(s["deps"]) if n <= 64 else 0):
                yield {"synth": dict(s, deps=s["deps"][:j] + s["deps"][j + 1:])}
            for key in s["faults"]:
                yield {"synth": dict(s, faults={k: v for k, v in s["faults"].items() if k != key})}
            return
        for key in ("lost", "dup"):
            if case.get(key):
                yield dict(case, **{key: 0})


def sorted_deps(cp, deps):
    """In an order that does not depend on generated ids."""
    df = cp.get_recorded_activity_df()
    key = {
        r.cp_activity_id: (str(r.start_time), str(r.end_time), str(r.Activity))
        for r in df.itertuples()
    }
    return sorted(deps, key=lambda d: (key.get(d[0], ()), key.get(d[1], ())))


def seconds(x):
    if hasattr(x, "total_seconds"):
        return x.total_seconds()
    if isinstance(x, dt.datetime):
        return (x - dt.datetime(1970, 1, 1)).total_seconds()
    return float(x)


def judge_critical(df, deps, table, out, direct=None):
    acts, names = {}, {}
    for r in df.itertuples():
        a, b = seconds(r.start_time), seconds(r.end_time)
        acts.setdefault(r.cp_activity_id, (a, b, b - a))
        names[r.cp_activity_id] = "%s [%g, %g]" % (r.Activity, a, b)
    # rows of the table: everything recorded with an object, and critical activities that were not
    marked = set()
    rows = {}
    for r in table.itertuples():
        key = (r.cp_activity_id, r.SimulationObject)
        rows[key] = rows.get(key, 0) + 1
        if r.is_critical:
            marked.add(r.cp_activity_id)
    for r in table.itertuples():
        if bool(r.is_critical) != (r.cp_activity_id in marked):
            out.bad("critical", "%s is critical in one row and not in another", names[r.cp_activity_id])
    with_object = set(df.loc[df.SimulationObject != "Activity", "cp_activity_id"])
    want = {}
    for r in df.itertuples():
        key = (r.cp_activity_id, r.SimulationObject)
        if r.SimulationObject != "Activity":
            want[key] = want.get(key, 0) + 1
        elif r.cp_activity_id not in with_object and r.cp_activity_id in marked:
            want[key] = want.get(key, 0) + 1
    if rows != want:
        odd = [k for k in set(rows) | set(want) if rows.get(k) != want.get(k)]
        k = min(odd, key=lambda k: (names.get(k[0], ""), k[1]))
        out.bad(
            "critical", "row of %s with %s: %s times instead of %s", names.get(k[0]), k[1],
            rows.get(k, 0), want.get(k, 0),
        )
        return
    if direct is not None:
        if len(direct) != len(set(direct)):
            out.bad("critical", "an activity is listed twice")
        got = set(direct)
        if got != marked:
            out.bad("critical", "the table marks other activities than the graph")
    else:
        got = marked
    gridded = all(abs(v * 4 - round(v * 4)) < 1e-9 for a in acts.values() for v in (a[0] % 3600, a[1] % 3600))
    if gridded:
        best, sets = longest(acts, deps)
        if best == 0:
            if got:
                out.bad("critical", "%s is critical, nothing takes time", names[min(got)])
            return
        if not any(got == s for s in sets):
            s = min(sets, key=lambda s: len(s ^ got))
            more = sorted(names[a] for a in got - s)[:3]
            less = sorted(names[a] for a in s - got)[:3]
            out.bad(
                "critical", "longest chain %g: %d marked, %d expected; wrongly marked %s, missing %s",
                best, len(got), len(s), more, less,
            )
        out.stats["counts"]["exact"] = 1
    else:
        # durations are rounded to milliseconds before chains are compared
        tol = 0.02 + 0.001 * (len(acts) + 2)
        take = {a: v for a, v in acts.items() if v[2] >= 0.002}
        may = longest_any(take, [d for d in deps if d[0] in take and d[1] in take], tol)
        if len(take) == len(acts):
            wrong = got - may
            if wrong:
                out.bad("critical", "%s is not on a longest chain", names[min(wrong, key=lambda a: names[a])])
            if take and not got:
                out.bad("critical", "nothing is critical")
        out.stats["counts"]["rounded"] = 1


# ----------------------------------------------------------------------
# C25
def traceable(sc):
    """Only timers that carry the id of an activity, and events that keep their number."""
    sc["env"] = "cp"
    sc.pop("actors", None)
    sc.pop("actors_first", None)
    if sc["sched"]["mode"] == "perm":
        sc["sched"]["mode"] = "iso"
    for n in gen.walk(sc["acts"]):
        for key in ("se", "cond"):
            if fires(n.get(key)):
                n.pop(key)
                if key == "cond":
                    n["cond"] = {"time": 30}
    return sc


def fires(e):
    if isinstance(e, list):
        return any(fires(x) for x in e)
    if isinstance(e, dict):
        if "ev" in e:
            return True
        return any(fires(x) for k in ("and", "or") for x in e.get(k, ()))
    return False


def finder(way):
    from openclsim.critical_path.dependencies_from_recorded_activities import (
        DependenciesFromRecordedActivities,
    )
    from openclsim.critical_path.dependencies_from_simpy_step import DependenciesFromSimpy

    return DependenciesFromSimpy if way == "simpy" else DependenciesFromRecordedActivities


def by_rule(df):
    """The documented rule for dependencies from records, in the simplest possible way."""
    rows = [
        (r.SimulationObject, r.start_time, r.end_time, r.state, r.cp_activity_id)
        for r in df.itertuples()
        if r.SimulationObject != "Activity"
    ]
    ends = {}
    for r in rows:
        ends.setdefault(r[2], []).append(r)
    deps = set()
    for obj, start, _, _, act in rows:
        same_time = ends.get(start, [])
        shared = [r for r in same_time if r[0] == obj]
        if any(r[3] == "WAITING" for r in shared):
            shared = same_time
        deps.update((r[4], act) for r in shared if r[4] != act)
    return deps


@define
class C25(DiffCheck):
    """Dependencies are those of the rule, or those of the simulator."""

    pid, codes = "C25", {"depend"}
    profiles = ((2, DEFAULT), (3, TREE), (1, CONTEND), (2, PLUG), (1, LOOPS), (1, EVENTS), (1, FLEET), (1, TIGHT), (1, RUSH), (1, TWINS))
    quick = 3200
    thorough = 60000
    rule = (
        "a case is the recorded history of a simulated run, complete or cut off between two events or "
        "at a moment in time, whose dependencies are found by matching records or through the "
        "simulator, or (one in five) a made up table of records; non-trivial = two or more activities finished"
    )
    measure = "SHA-1 of the order of all activity log events of the run"
    real = [
        "openclsim.critical_path (recorded activities, both ways to find dependencies, graph)",
        "the complete simulation stack",
    ]

    def case(self, rng, i):
        if i % 97 == 11:  # long histories
            n = rng.choice([300, 700])
            sc = {
                "v": 1, "fam": "long", "objs": {}, "horizon": 10**7, "sched": {"mode": "fifo"}, "cap": 60000,
                "acts": [
                    {"t": "repeat", "n": "R0", "k": n, "subs": [{"t": "basic", "n": "B0", "dur": 1}]
                     + ([{"t": "basic", "n": "B1", "dur": 2}] if rng.random() < 0.5 else [])}
                ],
            }
            return {"sc": traceable(sc), "way": "simpy"}
        if i % 5 == 3:
            return {"rows": self.made_up(rng), "t0": rng.choice([0, 0, 86400, 1700000000])}
        sc = Cut.draw(rng, self.scenario(rng))
        way = rng.choice(["records", "simpy", "simpy"])
        if way == "simpy":
            sc = traceable(sc)
            if rng.random() < 0.3:
                sc["ops"] = gen.pauses(rng)
        return {"sc": sc, "way": way}

    def made_up(self, rng):
        """A table of records: (activity, from, to, state, objects), many of them side by side."""
        span, unit = rng.choice([3, 6, 12]), rng.choice([1, 1, 0.5, 0.001, 0.00005, 3600])
        rows = []
        for _ in range(rng.choice([1, 3, 6, 12, 25])):
            a, d = rng.randrange(span), rng.choice([0, 1, 1, 1, 2, 3])
            objs = ["obj%d" % k for k in sorted(rng.sample(range(4), rng.choice([0, 1, 1, 2, 3])))]
            if not objs or rng.random() < 0.6:
                objs.append("Activity")
            rng.shuffle(objs)
            rows.append([rng.randrange(5), a * unit, (a + d) * unit, rng.choice(["ACTIVE", "ACTIVE", "WAITING"]), objs])
        return rows

    def judge_made_up(self, case, out):
        import pandas as pd

        from openclsim.critical_path.dependencies_from_recorded_activities import (
            DependenciesFromRecordedActivities,
        )

        def stamped(x):
            return dt.datetime(1970, 1, 1) + dt.timedelta(seconds=case["t0"] + x)

        rows = [
            ["act%d" % act, "name%d" % act, o, stamped(a), stamped(b), stamped(b) - stamped(a), state, "cp%d" % i]
            for i, (act, a, b, state, objs) in enumerate(case["rows"])
            for o in objs
        ]
        df = pd.DataFrame(
            rows,
            columns=[
                "ActivityID", "Activity", "SimulationObject", "start_time", "end_time", "duration",
                "state", "cp_activity_id",
            ],
        )
        out.shape = out.digest = sha(case)[:16]
        out.nontrivial = len(case["rows"]) >= 2
        with cpu_guard(30):
            cp = DependenciesFromRecordedActivities(env=None, object_list=[], activity_list=[])
            cp.recorded_activities_df = df.copy()
            found = set(cp.get_dependency_list())
        want = by_rule(df)
        out.stats = {"counts": {"dependencies": len(want)}}
        if found != want:
            out.bad(
                "depend", "made up records: too many %s, missing %s",
                sorted(found - want)[:3], sorted(want - found)[:3],
            )

    def shrinks(self, case):
        for i in range(len(case.get("rows", ()))):
            if len(case["rows"]) > 1:
                yield dict(case, rows=case["rows"][:i] + case["rows"][i + 1:])

    def compare(self, case, out):
        if "rows" in case:
            return self.judge_made_up(case, out)
        sc = copy.deepcopy(case["sc"])
        run = run_cut(sc, out)
        if run.error is not None or run.capped:
            out.nontrivial = False
            return
        w = run.world
        cp = finder(case["way"])(**everything(w))
        deps = list(cp.get_dependency_list())
        df = cp.get_recorded_activity_df()
        times, names = {}, {}
        for r in df.itertuples():
            times[r.cp_activity_id] = (seconds(r.start_time), seconds(r.end_time))
            names[r.cp_activity_id] = "%s [%g, %g]" % (
                r.Activity, seconds(r.start_time) - w.t0, seconds(r.end_time) - w.t0,
            )

        def show(pairs):
            return sorted("%s -> %s" % (names.get(a), names.get(b)) for a, b in pairs)[:3]

        for a, b in deps:
            if a not in times or b not in times:
                out.bad("depend", "dependency of something that was not recorded: %s", show([(a, b)]))
                return
            if abs(times[a][1] - times[b][0]) > 4e-4:
                out.bad("depend", "%s did not follow each other at once", show([(a, b)]))
                return
        found = set(deps)
        if case["way"] == "records":
            want = by_rule(df)
            if found != want:
                out.bad("depend", "by the rule: too many %s, missing %s", show(found - want), show(want - found))
        else:
            may, must = self.traced(w, df)
            if not found <= may:
                out.bad("depend", "not caused by each other: %s", show(found - may))
            if not must <= found:
                out.bad("depend", "traced, but missing: %s", show(must - found))
            hand = self.hand_overs(run, df)
            out.stats["counts"]["hand_over"] = len(hand)
            if not hand <= found:
                out.bad("depend", "hand-over without dependency: %s", show(hand - found))
        out.stats["counts"]["dependencies"] = len(found)
        # asking again changes nothing, and a critical path can be made of it
        if set(cp.get_dependency_list()) != found:
            out.bad("depend", "asked again, other dependencies are found")
        cp.get_critical_path_df()

    def traced(self, w, df):
        """Dependencies according to the simulator's own record of causes."""
        rows = {}
        for r in df.itertuples():
            a, b = seconds(r.start_time), seconds(r.end_time)
            if b > a:
                rows.setdefault(r.ActivityID, set()).add((a, b, r.cp_activity_id))
        may, must = set(), set()
        for timer, cause in w.env.timers():
            if cause is None:
                continue
            e_act, e_end, e_start = timer
            c_act, c_end, _ = cause

            def causes(tol):
                return {r[2] for r in rows.get(c_act, ()) if abs(r[1] - c_end) < tol}

            def effects(tol):
                return {
                    r[2] for r in rows.get(e_act, ())
                    if abs(r[1] - e_end) < tol and abs(r[0] - e_start) < tol
                }

            # recorded times are rounded
            wide = {(a, b) for a in causes(3e-4) for b in effects(3e-4)}
            may |= wide
            tight = {(a, b) for a in causes(5e-6) for b in effects(5e-6)}
            if len(wide) == 1:
                must |= tight
        return may, must

    def hand_overs(self, run, df):
        """Pairs of recorded activities where one of a sequence directly follows another."""
        w = run.world
        rows = {}
        for r in df.itertuples():
            a, b = seconds(r.start_time), seconds(r.end_time)
            if b > a and r.state == "ACTIVE":
                rows.setdefault(r.ActivityID, []).append((round(a, 4), round(b, 4), r.cp_activity_id))
        hand = set()

        def leaf(n):
            if n.get("plug") or n.get("se") is not None or n.get("alog"):
                return False
            if n["t"] == "basic":
                return True
            if n["t"] == "move":
                # nobody else uses the mover
                users = [
                    m for m in gen.walk(run.sc["acts"])
                    if n["mover"] in [m.get(k) for k in ("mover", "proc", "org", "dst", "loader", "unloader")]
                ]
                return len(users) == 1 and not n.get("keep") and not n.get("grp") and w.objs[n["mover"]].resource.capacity >= 1
            return False

        for n in gen.walk(run.sc["acts"]):
            if n["t"] not in ("seq", "repeat", "while"):
                continue
            pairs = list(zip(n["subs"], n["subs"][1:]))
            if n["t"] == "repeat" and n["k"] > 1 or n["t"] == "while":
                if len(n["subs"]) == 1 and n["t"] == "repeat":
                    pairs.append((n["subs"][0], n["subs"][0]))
            for a, b in pairs:
                if not (leaf(a) and leaf(b)):
                    continue
                one = sorted(set(rows.get(w.acts[a["n"]].id, ())))
                two = sorted(set(rows.get(w.acts[b["n"]].id, ())))
                for r in one:
                    for s in two:
                        if r[1] == s[0] and r[2] != s[2]:
                            hand.add((r[2], s[2]))
        return hand


# ----------------------------------------------------------------------
# C26
class Disk(text_io.StringIO):
    """A file on a disk that fails at the k-th write, or fills up."""

    def __init__(self, k=None, room=None):
        super().__init__()
        self.k, self.room = k, room
        self.count = 0

    def write(self, s):
        self.count += 1
        if self.k is not None and self.count >= self.k:
            raise OSError(5, "injected-input/output error")
        if self.room is not None and self.tell() + len(s) > self.room:
            super().write(s[: max(0, self.room - self.tell())])
            raise OSError(28, "injected-no space left on device")
        return super().write(s)


def books(w):
    """Everything recorded so far, to see whether it changed."""
    return [(n, repr(x.logbook)) for n, x in list(w.objs.items()) + list(w.acts.items())]


def intervals(entries, keys=("START", "STOP")):
    """[(first entry, last entry or None)] of one activity and one label, in order."""
    starts = [e for e in entries if e.state == keys[0]]
    stops = [e for e in entries if e.state == keys[1]]
    return [(s, stops[i] if i < len(stops) else None) for i, s in enumerate(starts)]


def labelled(entries):
    """Entries per ref of their label, in order of appearance."""
    out = {}
    for e in entries:
        out.setdefault(e.label.get("ref", ""), []).append(e)
    return out


def union(spans):
    out = []
    for a, b in sorted(spans):
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return [tuple(x) for x in out]


def near_t(a, b):
    if nan(a) or nan(b):
        return nan(a) and nan(b)
    return abs(a - b) < 2e-6


def stamp(x):
    """A time in a table as a number, None when missing."""
    if x is None or x != x:
        return None
    if hasattr(x, "to_pydatetime"):
        x = x.to_pydatetime()
    return (x - dt.datetime(1970, 1, 1)).total_seconds()


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a == b
    if nan(a) or nan(b):
        return nan(a) and nan(b)
    try:
        return bool(a == b)
    except Exception:  # noqa: BLE001
        return False


@define
class C26(DiffCheck):
    """Tables, exports and charts show what was recorded."""

    pid, codes = "C26", {"table"}
    profiles = (
        (2, DEFAULT), (3, TREE), (1, CONTEND), (1, PLUG), (1, LOOPS), (1, EVENTS), (1, FLEET),
        (1, MULTI), (1, TIGHT), (1, dict(TREE, alog=1)), (1, TWINS),
    )
    quick = 2400
    thorough = 40000
    rule = (
        "a case is the recorded history of a simulated run, complete or cut off between two events, "
        "a seeded choice of tables, exports and charts of it, and write errors at a seeded point; "
        "non-trivial = two or more log entries"
    )
    measure = "SHA-1 of the order of all activity log events of the run"
    real = [
        "openclsim.io, openclsim.plot, openclsim.critical_path.base_cp",
        "pandas, matplotlib (Agg) and plotly figure objects",
        "the complete simulation stack",
    ]
    stub = DiffCheck.stub + ["files: in memory, with seeded write errors; /dev/full for a full disk"]

    VIEWS = [
        "log", "log", "ranges", "ranges", "activity_log", "activities", "resources", "concepts",
        "recorded", "recorded", "step", "gantt", "gantt", "cp_gantt",
    ]

    def case(self, rng, i):
        sc = Cut.draw(rng, self.scenario(rng))
        if rng.random() < 0.06:
            sc["horizon"] = 0.001
        return {"sc": sc, "views": rng.sample(range(len(self.VIEWS)), 4), "pick": rng.getrandbits(30)}

    def prepare(self):
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot  # noqa: F401
        import plotly.graph_objs as go

        import openclsim.io  # noqa: F401
        import openclsim.plot  # noqa: F401

        go.Scatter(x=[1], y=[1])

    def is_known(self, case, problem):
        return problem[0] == "table" and problem[1].startswith("structural rows")

    def compare(self, case, out):
        run = run_cut(copy.deepcopy(case["sc"]), out)
        if run.capped:
            out.nontrivial = False
            return
        out.nontrivial = len(run.rec.entries) >= 2
        v = Views(run, out, random.Random(case["pick"]))
        before = books(run.world)
        for k in case["views"]:
            name = self.VIEWS[k]
            getattr(v, name)()
            out.stats["counts"]["view_" + name] = out.stats["counts"].get("view_" + name, 0) + 1
        if books(run.world) != before:
            out.bad("table", "making %s changed the logs", [self.VIEWS[k] for k in case["views"]])

    def shrinks(self, case):
        for j in range(len(case["views"])):
            if len(case["views"]) > 1:
                yield dict(case, views=case["views"][:j] + case["views"][j + 1:])


class Views:
    def __init__(self, run, out, rng):
        self.run, self.w, self.out, self.rng = run, run.world, out, rng
        self.entries = {}
        for n in list(self.w.objs) + list(self.w.acts):
            self.entries[n] = []
        for e in run.rec.entries:
            self.entries[e.obj].append(e)
        for part in self.entries.values():
            # waits are recorded when they are over; tables are in order of time
            part.sort(key=lambda e: e.t)
        self.names = {a.id: n for n, a in self.w.acts.items()}
        self.shown = {a.id: a.name for a in self.w.acts.values()}  # not all different
        self.things = {**self.w.objs, **self.w.acts}

    def bad(self, msg, *args):
        self.out.bad("table", msg, *args)

    def count(self, kind):
        c = self.out.stats["counts"]
        c[kind] = c.get(kind, 0) + 1

    def thing(self):
        pool = [n for n in self.things if hasattr(self.things[n], "log")]
        full = [n for n in pool if self.entries[n]]
        return self.rng.choice(full if full and self.rng.random() < 0.85 else pool)

    def mapping(self):
        """An id_map and the names it gives to ids."""
        tops = list(self.w.top)
        k = self.rng.choice(["none", "list", "dict", "manual", "part"])
        if k == "none":
            return None, {}
        if k == "list":
            return tops, dict(self.shown)
        if k == "dict":
            return {"k%d" % i: a for i, a in enumerate(tops)}, dict(self.shown)
        if k == "manual":
            some = self.rng.sample(sorted(self.names), self.rng.randint(1, len(self.names)))
            m = {i: "label of " + self.names[i] for i in some}
            return m, dict(m)
        one = self.rng.choice(tops)
        inside = {a.id for a in subtree(one)}
        return [one], {i: n for i, n in self.shown.items() if i in inside}

    # -- tables ------------------------------------------------------------
    def log(self):
        from openclsim.plot import get_log_dataframe

        n = self.thing()
        id_map, names = self.mapping()
        df = get_log_dataframe(self.things[n], id_map) if id_map is not None else get_log_dataframe(self.things[n])
        want = self.entries[n]
        if len(df) != len(want):
            return self.bad("log table of %s: %d rows, %d entries", n, len(df), len(want))
        cols = set(df.columns)
        for row, e in zip(df.to_dict("records"), want):
            act = names.get(e.act_id, e.act_id)
            if row["Activity"] != act or row["ActivityState"] != e.state or not near_t(stamp(row["Timestamp"]), e.t):
                return self.bad(
                    "log table of %s: row %s %s %s, recorded %s %s %s", n, row["Activity"],
                    row["ActivityState"], row["Timestamp"], act, e.state, e.raw["Timestamp"],
                )
            for extra in (e.raw["ObjectState"], e.raw["ActivityLabel"]):
                for key, val in extra.items():
                    if key not in cols or not same(row[key], val):
                        return self.bad("log table of %s: %s is %s, recorded %s", n, key, row.get(key), val)
            for key in cols - {"Activity", "ActivityState", "Timestamp"}:
                if key not in e.raw["ObjectState"] and key not in e.raw["ActivityLabel"] and not nan(row[key]):
                    return self.bad("log table of %s: %s is %s, nothing was recorded", n, key, row[key])

    def expected_ranges(self, n, names):
        """[(activity, start, stop, level at start, level at stop, trip)] of one log."""
        out = []
        per = {}
        for e in self.entries[n]:
            per.setdefault(names.get(e.act_id, e.act_id), []).append(e)
        for act, entries in per.items():
            rows = []
            for part in labelled(entries).values():
                rows += intervals(part)
            rows.sort(key=lambda r: entries.index(r[0]))
            for trip, (a, b) in enumerate(rows, 1):
                out.append((act, a, b, trip))
        return out

    def check_ranges(self, n, rows, want, key):
        """rows: dictionaries of a table, want: expected ranges."""
        if len(rows) != len(want):
            return self.bad("ranges of %s: %d rows, %d intervals", n, len(rows), len(want))
        if [stamp(r["TimestampStart"]) for r in rows] != sorted(stamp(r["TimestampStart"]) for r in rows):
            return self.bad("ranges of %s are not in chronological order", n)
        left = list(rows)
        for act, a, b, trip in want:
            hit = None
            for r in left:
                if r[key] == act and r["trip"] == trip and near_t(stamp(r["TimestampStart"]), a.t):
                    hit = r
                    break
            if hit is None:
                return self.bad("ranges of %s: trip %d of %s from %s is missing", n, trip, act, a.raw["Timestamp"])
            left.remove(hit)
            stop = None if b is None else b.t
            if not near_t(stamp(hit["TimestampStop"]), stop):
                return self.bad(
                    "ranges of %s: trip %d of %s stops at %s, recorded %s", n, trip, act,
                    hit["TimestampStop"], b and b.raw["Timestamp"],
                )
            dur = None if b is None else b.t - a.t
            if not near_t(hit["TimestampDt"], dur):
                return self.bad("ranges of %s: trip %d of %s takes %s, not %s", n, trip, act, hit["TimestampDt"], dur)
            for col, e in (("ContainerLevelStart", a), ("ContainerLevelStop", b)):
                if e is not None and "container level" in e.raw["ObjectState"]:
                    if col not in hit or not same(hit[col], e.raw["ObjectState"]["container level"]):
                        return self.bad(
                            "ranges of %s: %s of %s is %s, recorded %s", n, col, act, hit.get(col),
                            e.raw["ObjectState"]["container level"],
                        )

    def ranges(self):
        from openclsim.io import get_ranges_dataframe

        n = self.thing()
        id_map, names = self.mapping()
        opened = {}
        for e in self.entries[n]:
            who = names.get(e.act_id, e.act_id)
            opened.setdefault((who, e.label.get("ref", "")), {}).setdefault(e.act_id, []).append(e.state)
        for acts in opened.values():
            if sum(x.count("START") > x.count("STOP") for x in acts.values()) > 1:
                return  # namesakes that are both busy cannot be told apart
        df = get_ranges_dataframe(self.things[n], id_map)
        self.check_ranges(n, df.to_dict("records"), self.expected_ranges(n, names), "Activity")

    # -- exports -----------------------------------------------------------
    def trees(self):
        """What to export, and the activities that belong to it."""
        tops = list(self.w.top)
        k = self.rng.random()
        if k < 0.5:
            return tops, tops
        if k < 0.7:
            return {"k%d" % i: a for i, a in enumerate(tops)}, tops
        one = self.rng.choice(tops)
        return (one, [one]) if k < 0.85 else ([one], [one])

    def export(self, what, call, columns):
        """Export to a file, with and without write errors."""
        table = call(None)
        k = self.rng.random()
        if k < 0.35:
            return table
        if k < 0.6:  # a healthy disk: the file has what is returned
            f = Disk()
            back = call(f)
            self.written(what, f.getvalue(), back, columns)
            return back
        probe = Disk()
        call(probe)
        if k < 0.85:
            f = Disk(k=self.rng.randint(1, max(1, probe.count)))
        elif k < 0.95:
            f = Disk(room=self.rng.randrange(max(1, probe.tell())))
        else:
            f = "/dev/full" if self.rng.random() < 0.5 and os.path.exists("/dev/full") else "/nonexistent/dir/x.csv"
        self.count("write_error")
        try:
            call(f)
        except OSError:
            pass
        except Exception as e:  # noqa: BLE001
            self.bad("%s: a write error became %r", what, e)
        else:
            self.bad("%s: nobody is told of a write error", what)
        # afterwards everything is as before
        g = Disk()
        back = call(g)
        self.written(what, g.getvalue(), back, columns)
        return back

    def written(self, what, text, table, columns):
        import csv

        rows = list(csv.reader(text_io.StringIO(text)))
        cols = columns or list(table.columns)
        if not rows or rows[0] != [str(c) for c in cols]:
            return self.bad("%s: header %s, expected %s", what, rows[:1], cols)
        want = [[text_of(x) for x in r] for r in table[cols].itertuples(index=False, name=None)]
        if len(rows) - 1 != len(want):
            return self.bad("%s: %d lines written, %d rows returned", what, len(rows) - 1, len(want))
        for i, (a, b) in enumerate(zip(rows[1:], want)):
            if not all(field_same(x, y) for x, y in zip(a, b)) or len(a) != len(b):
                return self.bad("%s: line %d is %s, returned %s", what, i + 1, a, b)

    def activity_log(self):
        from openclsim.io import get_activity_log

        arg, tops = self.trees()
        cols = [
            "trip", "ActivityID", "ActivityName", "ActivityClass", "TimestampStart", "TimestampStop", "TimestampDt",
        ]
        table = self.export("activity log", lambda f: get_activity_log(arg, f) if f is not None else get_activity_log(arg), cols)
        rows = table.to_dict("records")
        per = {}
        for r in rows:
            per.setdefault(r["ActivityID"], []).append(r)
        acts = [a for t in tops for a in subtree(t)]
        starts = [stamp(r["TimestampStart"]) for r in rows]
        if starts != sorted(starts):
            return self.bad("the activity log is not in chronological order")
        for a in acts:
            n = self.names[a.id]
            mine = per.pop(a.id, [])
            for r in mine:
                if r["ActivityName"] != a.name or r["ActivityClass"] != type(a).__name__:
                    return self.bad("activity log: %s is shown as %s %s", n, r["ActivityName"], r["ActivityClass"])
            self.check_ranges(n, mine, self.expected_ranges(n, {}), "ActivityID")
        if per:
            self.bad("activity log: rows of %s, which was not exported", sorted(per)[:2])

    def tree_rows(self, tops):
        """[(activity, parent, depth)]"""
        out = []

        def go(a, parent, depth):
            out.append((a, parent, depth))
            for s in getattr(a, "sub_processes", ()):
                go(s, a, depth + 1)

        for t in tops:
            go(t, None, 0)
        return out

    def activities(self):
        from openclsim.io import get_activities, get_tree_as_list

        arg, tops = self.trees()
        cols = [
            "ActivityID", "ActivityName", "ActivityClass", "ParentId", "ParentName", "ParentLevel", "OriginID",
            "OriginName", "DestinationID", "DestinationName", "ProcessorID", "ProcessorName", "MoverID", "MoverName",
        ]
        table = self.export("activities", lambda f: get_activities(arg, f) if f is not None else get_activities(arg), cols)
        want = []
        for a, parent, depth in self.tree_rows(tops):
            item = {
                "ActivityID": a.id, "ActivityName": a.name, "ActivityClass": type(a).__name__,
                "ParentId": parent.id if parent is not None else None,
                "ParentName": parent.name if parent is not None else "", "ParentLevel": depth,
            }
            for key, attr in (("Origin", "origin"), ("Destination", "destination"), ("Processor", "processor"), ("Mover", "mover")):
                o = getattr(a, attr, None)
                item[key + "ID"] = o.id if o is not None else None
                item[key + "Name"] = o.name if o is not None else ""
            want.append(item)
        got = [{c: (None if nan(r[c]) else r[c]) for c in cols} for r in table.to_dict("records")]
        order = lambda r: str(r["ActivityID"])  # noqa: E731
        for g, x in zip(sorted(got, key=order), sorted(want, key=order)):
            if g != x:
                k = [c for c in cols if g[c] != x[c]]
                return self.bad("activities: %s of %s is %s, not %s", k, x["ActivityName"], [g[c] for c in k], [x[c] for c in k])
        if len(got) != len(want):
            return self.bad("activities: %d rows, %d activities", len(got), len(want))
        tree = get_tree_as_list(arg)
        if sorted(zip(map(str, tree["ActivityID"]), map(str, tree["ParentId"]), tree["ParentLevel"])) != sorted(
            (str(x["ActivityID"]), str(x["ParentId"]), x["ParentLevel"]) for x in want
        ):
            self.bad("the tree as a list has other parents than the activities")
        if len({len(v) for v in tree.values()}) != 1 or [a.id for a in tree["activity"]] != list(tree["ActivityID"]):
            self.bad("the tree as a list mixes up its activities")

    def resources(self):
        from openclsim.io import get_activity_resources

        arg, tops = self.trees()
        table = self.export(
            "resources", lambda f: get_activity_resources(arg, ofile=f) if f is not None else get_activity_resources(arg), None
        )
        want = []
        for a, _, _ in self.tree_rows(tops):
            for mode in ("processor", "mover", "origin", "destination"):
                o = getattr(a, mode, None)
                if o is not None:
                    want.append((a.id, a.name, type(a).__name__, o.id, o.name, mode))
        cols = ["ActivityID", "ActivityName", "ActivityClass", "ConceptID", "ConceptName", "ConceptMode"]
        got = [tuple(r[c] for c in cols) for r in table.to_dict("records")]
        if sorted(got) != sorted(want):
            odd = sorted(set(got) ^ set(want))[:2]
            self.bad("resources of activities: %s (%d rows, %d expected)", odd, len(got), len(want))

    def concepts(self):
        from openclsim.io import get_concepts

        some = self.rng.sample(sorted(self.w.objs), self.rng.randint(0, len(self.w.objs)))
        objs = [self.w.objs[n] for n in some]
        arg = {n: o for n, o in zip(some, objs)} if self.rng.random() < 0.5 else list(objs)
        ns = self.rng.choice(["", "Vessel", "Concept"])
        table = self.export(
            "concepts", lambda f: get_concepts(arg, namespace=ns, ofile=f) if f is not None else get_concepts(arg, ns), None
        )
        got = [(r[ns + "Name"], r[ns + "ID"], r[ns + "Class"]) for r in table.to_dict("records")]
        want = [(o.name, o.id, type(o).__name__) for o in objs]
        if got != want:
            self.bad("concepts: %s instead of %s", got[:2], want[:2])

    # -- recorded activities -----------------------------------------------
    def recorded(self):
        cp = finder("records")(**everything(self.w))
        df = cp.get_recorded_activity_df()
        got = {}
        ids = {}
        for r in df.itertuples():
            a, b = stamp(r.start_time), stamp(r.end_time)
            if not near_t(r.duration.total_seconds(), b - a):
                return self.bad("recorded %s takes %s from %s to %s", r.Activity, r.duration, r.start_time, r.end_time)
            if self.names.get(r.ActivityID) is not None and r.Activity != self.things[self.names[r.ActivityID]].name:
                return self.bad("recorded %s is called %s", self.names[r.ActivityID], r.Activity)
            key = (r.SimulationObject, r.ActivityID, r.state)
            got.setdefault(key, []).append((round(a, 6), round(b, 6)))
            ids.setdefault((r.ActivityID, r.start_time, r.end_time), set()).add(r.cp_activity_id)
        flat = [x for s in ids.values() for x in s]
        if len(flat) != len(ids) or len(set(flat)) != len(flat):
            return self.bad("recorded activities: ids are not one to one with activity and times")
        if list(df.start_time) != sorted(df.start_time):
            return self.bad("recorded activities are not in chronological order")
        want, kth = {}, {}
        for n, entries in self.entries.items():
            obj = self.w.objs[n].name if n in self.w.objs else "Activity"
            per = {}
            for e in entries:
                if e.state in ("START", "STOP", "WAIT_START", "WAIT_STOP"):
                    per.setdefault((e.act_id, e.state.startswith("WAIT")), []).append(e)
            for (act, wait), part in per.items():
                keys = ("WAIT_START", "WAIT_STOP") if wait else ("START", "STOP")
                key = (obj, act, "WAITING" if wait else "ACTIVE")
                rows = []
                groups = labelled(part).values() if not wait and n in self.w.acts else [part]
                for g in groups:
                    rows += [(round(a.t, 6), round(b.t, 6)) for a, b in intervals(g, keys) if b is not None]
                want.setdefault(key, []).extend(rows)
                a = sorted(e.t for e in part if e.state == keys[0])
                b = sorted(e.t for e in part if e.state == keys[1])
                kth.setdefault(key, []).extend((round(x, 6), round(y, 6)) for x, y in zip(a, b))
        known = None
        for key in set(got) | set(want):
            g, x = sorted(got.get(key, [])), sorted(want.get(key, []))
            if g == x:
                continue
            name = self.names.get(key[1], key[1])
            node = self.w.nodes.get(name, {})
            if key[0] == "Activity" and key[2] == "ACTIVE" and "subs" in node and g == sorted(kth.get(key, [])):
                known = (name, g, x)
                continue
            return self.bad("recorded activities of %s with %s (%s): %s, recorded %s", name, key[0], key[2], g[:4], x[:4])
        if known:
            self.bad("structural rows of %s: %s, recorded %s", *known)

    # -- charts --------------------------------------------------------------
    def step(self):
        import matplotlib.pyplot as plt

        from openclsim.plot import get_step_chart

        objs = [n for n in self.w.objs if n in self.run.rec.cids and hasattr(self.w.objs[n], "log")]
        if not objs:
            return
        some = self.rng.sample(objs, self.rng.randint(1, len(objs)))
        cmap = self.rng.choice([None, {"default": "cargo"}, {}])
        args = [[self.w.objs[n] for n in some]] + ([cmap] if cmap is not None else [])
        fig = get_step_chart(*args)
        try:
            lines = [
                (line.get_label(), [seconds(x) for x in line.get_xdata(orig=True)], list(line.get_ydata(orig=True)))
                for ax in fig.axes for line in ax.get_lines()
            ]
        finally:
            plt.close(fig)
        want = []
        for n in some:
            es = [e for e in self.entries[n]]
            if not es:
                continue
            for c in self.run.rec.cids[n]:
                label = {"default": ""} if cmap is None else cmap
                ys = []
                for e in es:
                    lv = e.raw["ObjectState"].get("container level")
                    ys.append(lv[c] if isinstance(lv, dict) else lv)
                want.append(("%s %s" % (self.w.objs[n].name, label.get(c, c)), [e.t for e in es], ys))
        if len(lines) != len(want):
            return self.bad("step chart: %d lines, %d containers with a log", len(lines), len(want))
        for g, x in zip(sorted(lines, key=lambda r: r[0]), sorted(want, key=lambda r: r[0])):
            if g[0] != x[0]:
                return self.bad("step chart: line %r, expected %r", g[0], x[0])
            if len(g[1]) != len(x[1]) or any(not near_t(a, b) for a, b in zip(g[1], x[1])) or g[2] != x[2]:
                return self.bad("step chart: line %s shows %s, recorded %s", g[0], list(zip(g[1], g[2]))[:4], list(zip(x[1], x[2]))[:4])

    def gantt(self):
        from openclsim.plot import get_gantt_chart

        pool = [n for n in self.things if hasattr(self.things[n], "log")]
        some = self.rng.sample(pool, self.rng.randint(1, min(6, len(pool))))
        if not any(self.entries[n] for n in some):
            return  # nothing to draw
        objs = [self.things[n] for n in some]
        arg = {n: o for n, o in zip(some, objs)} if self.rng.random() < 0.3 else list(objs)
        id_map, names = self.mapping()
        scale = self.rng.choice(["text", "numbers"])
        chart = get_gantt_chart(arg, id_map=id_map, static=True, y_scale=scale)
        inside = {a.id: a.name for o in objs for a in subtree(o)}

        def label(act):
            return inside.get(act, names.get(act, act))

        want = {}
        rows = [n for n in some if self.entries[n]]
        for k, n in enumerate(rows):
            y = -k if scale == "numbers" else self.things[n].name
            per = {}
            for e in self.entries[n]:
                if e.state in ("START", "STOP"):
                    per.setdefault(e.act_id, []).append(e)
            for act, part in per.items():
                spans = []
                for g in labelled(part).values():
                    spans += [(round(a.t, 6), round(b.t, 6)) for a, b in intervals(g) if b is not None]
                if spans:
                    want.setdefault((label(act), y), []).extend(spans)
        many = [label(act) for act in {e.act_id for n in rows for e in self.entries[n]}]
        many = {x for x in many if many.count(x) > 1}  # namesakes share their bars
        got = {}
        for tr in chart["data"]:
            xs, ys = list(tr.x or ()), list(tr.y or ())
            if len(xs) != len(ys) or len(xs) % 5:
                return self.bad("Gantt chart: %s has %d x and %d y values", tr.name, len(xs), len(ys))
            for j in range(0, len(xs), 5):
                a, b, y = xs[j], xs[j + 3], ys[j]
                if ys[j + 4] is not None or len(set(ys[j:j + 4])) != 1 or xs[j + 1] != a or xs[j + 2] != b or xs[j + 4] != b:
                    return self.bad("Gantt chart: a bar of %s is not a bar", tr.name)
                got.setdefault((tr.name, y), []).append((round(stamp_any(a), 6), round(stamp_any(b), 6)))
        for key in set(got) | set(want):
            order = union if key[0] in many else sorted
            g, x = order(got.get(key, [])), order(want.get(key, []))
            if g != x:
                return self.bad("Gantt chart: %s on row %s at %s, recorded %s", key[0], key[1], g[:4], x[:4])

        times = [e.t for n in rows for e in self.entries[n]]
        shown = [stamp_any(x) for x in chart["layout"].xaxis.range]
        if not (near_t(shown[0], min(times)) and near_t(shown[1], max(times))):
            self.bad("Gantt chart: from %s to %s, recorded from %s to %s", *shown, min(times), max(times))

    def cp_gantt(self):
        if self.run.error is not None:
            return
        cp = finder("records")(**everything(self.w))
        table = cp.get_critical_path_df()
        if not len(table):
            return
        chart = cp.make_plotly_gantt_chart(static=True)
        shown = [stamp_any(x) for x in chart["layout"].xaxis.range]
        if shown != [stamp(min(table.start_time)), stamp(max(table.end_time))]:
            self.bad("critical path chart: from %s to %s", *shown)
        want = {}
        for r in table.itertuples():
            span = (stamp(r.start_time), stamp(r.end_time))
            want.setdefault((str(r.Activity), r.SimulationObject), []).append(span)
            if r.is_critical:
                want.setdefault(("critical_path", r.SimulationObject), []).append(span)
        got = {}
        for tr in chart["data"]:
            xs, ys = list(tr.x or ()), list(tr.y or ())
            if len(xs) != len(ys) or len(xs) % 3:
                return self.bad("critical path chart: %s has %d x and %d y values", tr.name, len(xs), len(ys))
            for j in range(0, len(xs), 3):
                if ys[j] != ys[j + 1] or ys[j + 2] is not None:
                    return self.bad("critical path chart: a bar of %s is not a bar", tr.name)
                got.setdefault((tr.name, ys[j]), []).append((stamp_any(xs[j]), stamp_any(xs[j + 1])))
        for key in set(got) | set(want):
            g, x = sorted(got.get(key, [])), sorted(want.get(key, []))
            if g != x:
                return self.bad("critical path chart: %s with %s at %s, table %s", key[0], key[1], g[:3], x[:3])


def stamp_any(x):
    import pandas as pd

    return stamp(pd.Timestamp(x))


def subtree(a):
    yield a
    for s in getattr(a, "sub_processes", ()):
        yield from subtree(s)


def text_of(x):
    if x is None or x != x:
        return ""
    return x


def field_same(written, value):
    """A field of a csv file against a value of a table."""
    if isinstance(value, str):
        return written == value
    if hasattr(value, "to_pydatetime") or isinstance(value, dt.datetime):
        import pandas as pd

        return written != "" and pd.Timestamp(written) == pd.Timestamp(value)
    try:
        return abs(float(written) - float(value)) < 1e-9
    except ValueError:
        return written == str(value)


__all__ = ["C24", "C25", "C26", "Outcome"]
