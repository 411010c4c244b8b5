"""Checks that compare several simulated runs of the same scenario."""

import copy
import json
import os
import subprocess
import sys
import time as time_module

from . import gen
from .base import Check, Outcome, sha
from .build import World
from .env import StepCap
from .isolate import ChildError, in_child
from .observe import observer_calls
from .props import CONTENT, DEFAULT, MULTI, WEATHER, TIGHT, CONTEND, TREE, PLUG, FLEET, LOOPS, EVENTS, RUSH, RAISE, RATES, define
from .record import Recorder, ts
from .run import HarnessError, Run, cpu_guard, Hang, execute, history, in_repo, level_history, per_object
from . import launch


def final_state(run):
    w = run.world
    out = {"now": round(w.env.now - w.t0, 5)}
    for n, o in w.objs.items():
        c = getattr(o, "container", None)
        if c is not None:
            out[n] = [round(c.get_level(k), 6) for k in c.container_list]
        if hasattr(o, "resource"):
            out[n + "/users"] = [len(o.resource.users), len(o.resource.queue)]
    return out


def books(run):
    """The logbooks as they are in the end (the history above was noted along the way)."""
    w = run.world
    names = {a.id: n for n, a in w.acts.items()}
    names.update({o.id: n for n, o in w.objs.items()})
    out = {}
    for n, x in list(w.objs.items()) + list(w.acts.items()):
        out[n] = [
            (
                round(ts(e["Timestamp"]) - w.t0, 5),
                e["ActivityState"],
                names.get(e["ActivityID"], e["ActivityID"]),
                sorted((k, names.get(v, v)) for k, v in e["ActivityLabel"].items()),
            )
            for e in x.logbook
        ]
    return out


def result(run, per=False, ids=None):
    """What a user can compare between two runs."""
    rec = run.rec
    hist = per_object(rec, run.world.t0) if per else history(rec, run.world.t0)
    err = run.error
    root = err
    while root is not None and root.__cause__ is not None:
        root = root.__cause__
    return {
        "history": hist,
        "levels": level_history(rec, run.world.t0),
        "state": final_state(run),
        "books": books(run),
        "error": None if err is None else [type(root).__name__, text(root)],
        "capped": run.capped,
    }


def text(exc):
    """The message of an exception, unless it shows objects or generated ids."""
    msg = str(exc)
    return msg if msg.startswith("injected-") else ""


def differs(a, b):
    """The first difference between two results, as text."""
    if a["capped"] or b["capped"]:
        return None  # the step budget was used up, nothing to compare
    for key in ("error", "state", "levels", "books"):
        if a[key] != b[key]:
            return "%s: %s / %s" % (key, str(a[key])[:200], str(b[key])[:200])
    ha, hb = a["history"], b["history"]
    if isinstance(ha, dict):
        for k in sorted(set(ha) | set(hb)):
            if ha.get(k) != hb.get(k):
                return "log of %s: %s" % (k, first(ha.get(k, []), hb.get(k, [])))
        return None
    if ha != hb:
        return "history: %s" % first(ha, hb)
    return None


def first(x, y):
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q:
            return "entry %d: %s / %s" % (i, p, q)
    return "%d / %d entries" % (len(x), len(y))


def inside_repo(trace):
    """Whether a traceback as text ends in the code under test (or below it)."""
    return "/openclsim/" in trace


def plain_run(sc, cpu=20, **kw):
    """Execute without oracles (a differential check has its own)."""
    with cpu_guard(cpu):
        run = Run(sc, checks=False, **kw)
        run.go()
        run.rec.observe(None)
    return run


class DiffCheck(Check):
    profiles = ((1, DEFAULT),)
    quick = 2000
    thorough = 60000
    what = "diff"

    def scenario(self, rng):
        weights = [w for w, _ in self.profiles]
        prof = rng.choices([p for _, p in self.profiles], weights)[0]
        return gen.make(rng, prof)

    def evaluate(self, case):
        out = Outcome()
        try:
            self.compare(case, out)
        except Hang as e:
            out.bad("hang", str(e))
        except ChildError as e:
            if str(e).startswith("Hang"):
                out.bad("hang", str(e).strip().split("\n")[-1])
            elif str(e).startswith("HarnessError") or not inside_repo(str(e)):
                raise HarnessError(str(e)) from e
            else:
                out.bad("crash", str(e).strip().split("\n")[-1][:200])
        except HarnessError:
            raise
        except Exception as e:  # noqa: BLE001
            if not in_repo(e):
                raise
            out.bad("crash", "%s: %s" % (type(e).__name__, str(e)[:200]))
        return out

    def base(self, out, run):
        out.stats = run.stats()
        out.shape = run.shape()
        out.digest = run.digest()
        out.nontrivial = out.stats["finished"] >= 2
        from .base import trace

        out.trace = trace(run)


class Interpreters:
    """Interpreters with other hash seeds, which run single scenarios on request."""

    def __init__(self, keep=2):
        self.keep = keep
        self.procs = {}

    def get(self, seed):
        p = self.procs.pop(seed, None)
        if p is None:
            while len(self.procs) >= self.keep:
                self.close(next(iter(self.procs)))
            p = subprocess.Popen(
                [sys.executable, "-m", "simlib.child", "serve"],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                env=launch.environment(PYTHONHASHSEED=str(seed)), cwd=launch.ROOT, text=True,
            )
        self.procs[seed] = p
        return p

    def close(self, seed):
        p = self.procs.pop(seed)
        p.stdin.close()
        p.wait()
        p.stdout.close()

    def run(self, seed, sc):
        p = self.get(seed)
        p.stdin.write(json.dumps(sc) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            raise HarnessError("the interpreter with hash seed %s died" % seed)
        status, answer = json.loads(line)
        if status != "ok":
            raise ChildError(answer)
        return answer


@define
class C17(DiffCheck):
    """Same model, other hash values, other generated ids: same history."""

    pid, codes = "C17", {"repro"}
    profiles = ((2, DEFAULT), (2, CONTEND), (1, TIGHT), (1, TREE), (1, FLEET), (1, PLUG), (3, RUSH))
    quick = 3000
    rule = (
        "a case is a scenario in simpy's own order, run again with other seeds for the hashes of "
        "all objects and activities and for generated ids, once of these in another interpreter "
        "with another value of PYTHONHASHSEED, and (one case in 199) in fresh interpreters with "
        "real object hashes and ids; non-trivial = two or more activities finished"
    )
    pool = Interpreters()

    def case(self, rng, i):
        sc = self.scenario(rng)
        sc["sched"] = {"mode": "fifo"}
        sc.pop("hash", None)
        ids = sc.pop("ids", None)
        named = not ids and rng.random() < 0.7
        variants = []
        for _ in range(3):
            v = {"hash": rng.getrandbits(30) | 1}
            if not named:
                v["ids"] = rng.getrandbits(30) | 1
            variants.append(v)
        if i % 199 == 7:
            more = []
            for _ in range(30):
                s = self.scenario(rng)
                s["sched"] = {"mode": "fifo"}
                s.pop("hash", None)
                s.pop("ids", None)
                more.append(s)
            return {"many": [sc] + more, "hashseeds": [rng.randint(1, 4000) for _ in range(2)]}
        # neighbouring cases share a hash seed, every interpreter takes a while to start
        variants[-1]["strings"] = 1 + (i // 1000 * 2 + rng.randint(0, 1)) * 7919 % 100003
        return {"sc": sc, "variants": variants}

    def warm(self, case):
        for v in case.get("variants", ()):
            if "strings" in v:
                self.pool.get(v["strings"])

    def compare(self, case, out):
        if "many" in case:
            return self.interpreters(case, out)
        ref = None
        for v in [{}] + case["variants"]:
            sc = copy.deepcopy(case["sc"])
            sc.update(v)
            strings = sc.pop("strings", None)
            if strings is not None:
                res = self.pool.run(strings, sc)
                if json.loads(json.dumps(ref, default=str)) == res:
                    continue
                ref = json.loads(json.dumps(ref, default=str))
            else:
                run = plain_run(sc)
                res = result(run, per=True)
            if ref is None:
                ref = res
                self.base(out, run)
                out.stats["runs"] = 1 + len(case["variants"])
                continue
            d = differs(ref, res)
            if d:
                out.bad("repro", "other hashes/ids %s: %s", v, d)
                return

    def interpreters(self, case, out):
        """Fresh interpreters, each with its own hash seed, real object hashes and uuids."""
        procs = []
        for hs in [0] + case["hashseeds"]:
            env = launch.environment(PYTHONHASHSEED=str(hs))
            procs.append(
                subprocess.Popen(
                    [sys.executable, "-m", "simlib.child"],
                    stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                    env=env, cwd=launch.ROOT, text=True,
                )
            )
        data = json.dumps(case["many"])
        results = []
        for p in procs:
            o, e = p.communicate(data, timeout=300)
            if p.returncode != 0:
                raise HarnessError("child failed: %s" % e[-1500:])
            results.append(json.loads(o))
        for other in results[1:]:
            for j, (a, b) in enumerate(zip(results[0], other)):
                d = differs(a, b)
                if d:
                    out.bad("repro", "another interpreter, scenario %d: %s", j, d)
                    return
        out.stats = {"counts": {"fresh_interpreter": len(procs)}, "runs": len(case["many"]) * len(procs)}
        out.digest = sha(results[0])
        out.shape = out.digest[:16]

    def shrinks(self, case):
        if "many" in case:
            for n in (len(case["many"]) // 2,):
                if n:
                    yield dict(case, many=case["many"][:n])
                    yield dict(case, many=case["many"][n:])
            if len(case["many"]) <= 6:
                for j in range(len(case["many"])):
                    if len(case["many"]) > 1:
                        yield dict(case, many=case["many"][:j] + case["many"][j + 1:])
            return
        for j in range(len(case["variants"])):
            if len(case["variants"]) > 1:
                yield dict(case, variants=case["variants"][:j] + case["variants"][j + 1:])


@define
class C18(DiffCheck):
    """Stopping, stepping and looking do not change a simulation."""

    pid, codes = "C18", {"pause"}
    profiles = ((2, DEFAULT), (2, TREE), (1, CONTEND), (1, TIGHT), (1, EVENTS), (1, PLUG), (1, RAISE), (1, RUSH))
    quick = 4000
    rule = (
        "a case is a scenario run in one go and again with a seeded sequence of pauses, single "
        "steps and observations (tables, levels, states), or in the critical path "
        "environment; both histories must be identical; non-trivial = two or more activities finished"
    )

    def case(self, rng, i):
        sc = self.scenario(rng)
        sc.pop("ops", None)
        if rng.random() < 0.25:
            if sc["sched"]["mode"] == "perm":
                sc["sched"]["mode"] = "iso"
            return {"sc": sc, "cp": True}
        ops = []
        t = 0
        for _ in range(rng.randint(1, 8)):
            k = rng.random()
            if k < 0.45:
                t += rng.choice([0.25, 0.5, 1, 1, 2, 3, 5, 9, 20])
                ops.append({"until": t})
            elif k < 0.7:
                ops.append({"steps": rng.choice([1, 1, 2, 3, 5, 10, 30])})
            else:
                ops.append({"observe": rng.choice(gen.LOOKS)})
        return {"sc": sc, "pauses": ops}

    def compare(self, case, out):
        sc = copy.deepcopy(case["sc"])
        run = plain_run(sc)
        ref = result(run)
        self.base(out, run)
        out.ties = list(run.world.env.tie_log)
        other = copy.deepcopy(case["sc"])
        if case.get("cp"):
            other["env"] = "cp"
        else:
            other["ops"] = case["pauses"]
        run2 = plain_run(other, observe=observer_calls)
        for k, v in run2.world.counts.items():
            if k in ("pause", "observe"):
                out.stats["counts"][k] = v
        if case.get("cp"):
            out.stats["counts"]["critical_path_env"] = 1
        d = differs(ref, result(run2))
        if d:
            what = "critical path environment" if case.get("cp") else "pauses %s" % case["pauses"]
            out.bad("pause", "%s: %s", what, d)

    def shrinks(self, case):
        for j in range(len(case.get("pauses", ()))):
            if len(case["pauses"]) > 1:
                yield dict(case, pauses=case["pauses"][:j] + case["pauses"][j + 1:])


ZONES = ["UTC", "Asia/Kolkata", "America/New_York", "Pacific/Auckland", "Europe/Amsterdam", "Asia/Kathmandu"]
ORIGINS = [1, 1000, 86400, 2**20, 946684800, 1700000000, 1711846800, 1729994400]


def dyadic(sc):
    """Only numbers that binary arithmetic represents exactly, wherever the clock starts."""
    for n in gen.walk(sc["acts"]):
        for s in n.get("plug", ()):
            if s["p"] == "delay" and s["pct"] not in (0, 25, 50, 100, 200):
                s["pct"] = 25
    return sc


@define
class C19(DiffCheck):
    """Moving the origin of the clock, or the local time zone, moves the history with it."""

    pid, codes = "C19", {"origin"}
    fixed = {"float": 0, "computed_move": 0, "t0": 0, "callable": 0}
    profiles = tuple(
        (w, dict(p, float=0, computed_move=0, t0=0, callable=0, single=0))
        for w, p in ((2, DEFAULT), (2, TREE), (1, TIGHT), (1, CONTEND), (1, EVENTS), (2, PLUG), (2, dict(PLUG, weather=1)), (1, RUSH))
    )
    quick = 4500
    rule = (
        "a case is a scenario with exactly representable numbers run at clock origin 0 in UTC and "
        "again with all its times shifted to another origin (up to 1.7e9 s) in another time zone; "
        "histories relative to the origin must be identical"
    )

    def case(self, rng, i):
        sc = dyadic(self.scenario(rng))
        sc.pop("t0", None)
        return {"sc": sc, "t0": rng.choice(ORIGINS), "tz": rng.choice(ZONES)}

    def compare(self, case, out):
        run = plain_run(copy.deepcopy(case["sc"]))
        ref = result(run)
        self.base(out, run)
        out.ties = list(run.world.env.tie_log)
        other = copy.deepcopy(case["sc"])
        other["t0"] = case["t0"]
        zone(case["tz"])
        try:
            run2 = plain_run(other)
            res = result(run2)
        finally:
            zone("UTC")
        out.stats["counts"]["clock_jump"] = 1
        if case["tz"] != "UTC":
            out.stats["counts"]["timezone"] = 1
        d = differs(ref, res)
        if d:
            out.bad("origin", "origin %s in %s: %s", case["t0"], case["tz"], d)


def zone(name):
    os.environ["TZ"] = name
    time_module.tzset()


def perturb(sc, rng):
    """The same model with the same names, but with other numbers here and there."""
    sc = copy.deepcopy(sc)
    some = rng.choice([0.2, 0.5, 1])

    def turn():
        return rng.random() < some

    for o in sc["objs"].values():
        for cid, (cap, level) in o.get("cont", {}).items():
            if turn():
                cap = cap + rng.choice([1, 2, 5])
                o["cont"][cid] = [cap, level + rng.choice([0, 1]) if level else level]
        for key in ("lr", "ur"):
            if key in o and turn():
                o[key] = rng.choice([0.5, 1, 2, 3, {"a": 1, "b": 0.25}])
        if "v" in o and turn():
            o["v"] = [x * 2 for x in o["v"]]
        if "pos" in o and o["kind"] in ("vessel", "mvessel", "barge", "mover") and turn():
            o["pos"] = rng.choice([0, 1, 2])
    for n in gen.walk(sc["acts"]):
        if n.get("dur") and turn():
            n["dur"] = n["dur"] + rng.choice([0.5, 1, 3])
        if n.get("amt") and turn():
            n["amt"] = n["amt"] + rng.choice([0.5, 1])
        for p in n.get("plug", ()):
            if not turn():
                continue
            if p["p"] == "weather":
                # the same criterion and the same number of samples, another sea
                p["val"] = p["val"][1:] + p["val"][:1] if rng.random() < 0.5 else list(reversed(p["val"]))
                if rng.random() < 0.3:
                    p["wl"] = rng.choice([0, 1, 2.5])
            elif p["p"] == "delay":
                p["pct"] = rng.choice([0, 10, 50, 100])
            elif p["p"] == "stall":
                for k in ("pre", "post"):
                    if p.get(k):
                        p[k] += 1
    for actor in sc.get("actors", ()):
        if turn():
            actor["at"] += rng.choice([0, 0.5, 1])
    return sc


@define
class C20(DiffCheck):
    """Simulations that share a process do not influence each other."""

    pid, codes = "C20", {"isolate"}
    profiles = (
        (2, DEFAULT), (1, TREE), (2, CONTEND), (1, TIGHT), (1, PLUG), (1, FLEET), (1, RAISE), (1, RATES),
        (1, MULTI), (1, WEATHER), (1, RUSH),
    )
    quick = 2800
    rule = (
        "a case is two scenarios (same names and ids in both; often the same model with other numbers), "
        "each run alone in a fresh process and then in one process, one after the other or with their "
        "steps interleaved by a seeded schedule; each history must be unchanged"
    )

    def case(self, rng, i):
        a = self.scenario(rng)
        k = rng.random()
        if k < 0.15:
            b = copy.deepcopy(a)
        elif k < 0.7:
            b = perturb(a, rng)
        else:
            b = self.scenario(rng)
        for s in (a, b):
            s.pop("ops", None)
        return {"sc": a, "other": b, "mix": rng.getrandbits(30), "turns": rng.random() < 0.4}

    def alone(self, sc):
        out = Outcome()
        run = plain_run(copy.deepcopy(sc))
        self.base(out, run)
        out.ties = list(run.world.env.tie_log)
        return result(run), out

    def together(self, case):
        import random

        scs = [case["sc"], case["other"]]
        with cpu_guard(30):
            if case.get("turns"):
                runs = []
                for sc in scs:
                    runs.append(Run(copy.deepcopy(sc), checks=False).go())
                    runs[-1].rec.observe(None)
                return [result(r) for r in runs], [0, 1]
            rng = random.Random(case["mix"])
            runs = [Run(copy.deepcopy(sc), checks=False) for sc in scs]
            live = [0, 1]
            order = []
            for r in runs:
                r.world.start()
            while live:
                j = rng.choice(live)
                run = runs[j]
                env = run.world.env
                for _ in range(rng.choice([1, 1, 2, 3, 8, 20])):
                    order.append(j)
                    if env.peek() >= run.end and not env._tie_pend:
                        live.remove(j)
                        break
                    try:
                        env.step()
                    except StepCap:
                        run.capped = True
                        live.remove(j)
                        break
                    except Exception as e:  # noqa: BLE001
                        if not in_repo(e) and type(e).__name__ != "InjectedFault":
                            raise
                        run.error = e
                        live.remove(j)
                        break
            for run in runs:
                if run.error is None and not run.capped:
                    run.world.env.run(until=run.end)
                run.rec.observe(None)
        return [result(r) for r in runs], order

    def compare(self, case, out):
        # each in a process in which nothing was simulated before
        refs = []
        for j, key in enumerate(("sc", "other")):
            ref, one = in_child(self.alone, case[key])
            refs.append(ref)
            if j == 0:
                out.stats, out.shape, out.digest = one.stats, one.shape, one.digest
                out.nontrivial, out.trace, out.ties = one.nontrivial, one.trace, one.ties
        results, order = in_child(self.together, case)
        out.stats["counts"]["shared_process" if case.get("turns") else "interleaved_worlds"] = 1
        out.shape = sha([out.shape, order])[:16]
        for j, res in enumerate(results):
            d = differs(refs[j], res)
            if d:
                out.bad("isolate", "world %d: %s", j, d)
                return

    def shrinks(self, case):
        from .shrink import scenario_shrinks, valid

        for sc in scenario_shrinks(case["other"]):
            if valid(sc):
                yield dict(case, other=sc)
        if not case.get("turns"):
            yield dict(case, turns=True)


__all__ = ["C17", "C18", "C19", "C20", "World", "Recorder", "execute", "LOOPS", "RATES", "CONTENT"]
