"""Checks with scenarios of their own: movement over routes, errors, registration."""

import copy
import math
import random

import networkx as nx
import shapely.geometry as sg

from . import gen
from .base import Check, Outcome, sha, trace
from .build import BAD, World, object_class
from .diffs import DiffCheck, differs, plain_run, result
from .env import SimEnv
from .props import CONTEND, DEFAULT, FLEET, LOOPS, MULTI, PLUG, RAISE, RUSH, TREE, TraceCheck, define
from .run import HarnessError, Hang, Run, cpu_guard, execute, in_repo
from .spec import geodesic, near

import openclsim.model as model


# ----------------------------------------------------------------------
# C16
def line_length(coords):
    return sum(geodesic(a, b) for a, b in zip(coords, coords[1:]))


@define
class C16(TraceCheck):
    pid, codes = "C16", {"speed", "location", "route"}
    profiles = ((4, FLEET), (1, DEFAULT), (1, CONTEND), (2, dict(MULTI, computed_move=1)), (1, dict(FLEET, raise_=0, holds=0.8, actors=0.8)))
    rule = (
        "a case is a fleet scenario with computed sailing times, or (1 in 5) several vessels that "
        "sail over a generated network of routes or over a path, with stalls on the edges; "
        "non-trivial = two or more activities, or legs of a route, finished"
    )

    def case(self, rng, i):
        if i % 5 == 3:
            return {"route": route_case(rng)}
        return super().case(rng, i)

    def evaluate(self, case):
        if "route" in case:
            out = Outcome()
            try:
                with cpu_guard(20):
                    run_route(case["route"], out)
            except Hang as e:
                out.bad("hang", str(e))
            except HarnessError:
                raise
            except Exception as e:  # noqa: BLE001
                if not in_repo(e):
                    raise
                out.bad("crash", "%s: %s", type(e).__name__, str(e)[:200])
            return out
        return super().evaluate(case)

    def shrinks(self, case):
        if "route" in case:
            r = case["route"]
            for j in range(len(r.get("stray", ()))):
                yield {"route": dict(r, stray=r["stray"][:j] + r["stray"][j + 1:])}
            for j in range(len(r["vessels"])):
                if len(r["vessels"]) > 1:
                    yield {"route": dict(r, vessels=r["vessels"][:j] + r["vessels"][j + 1:])}
            for j, v in enumerate(r["vessels"]):
                for key in ("eo", "stall"):
                    if v.get(key):
                        new = copy.deepcopy(r)
                        new["vessels"][j].pop(key)
                        yield {"route": new}
                if v.get("trips", 1) > 1:
                    new = copy.deepcopy(r)
                    new["vessels"][j]["trips"] = 1
                    yield {"route": new}


def route_case(rng):
    n = rng.randint(2, 7) if rng.random() < 0.97 else rng.randint(20, 40)
    nodes = [[round(4 + rng.uniform(-0.4, 0.4), 4), round(52 + rng.uniform(-0.4, 0.4), 4)] for _ in range(n)]
    edges = []
    for i in range(n - 1):
        bends = [
            [round(4 + rng.uniform(-0.4, 0.4), 4), round(52 + rng.uniform(-0.4, 0.4), 4)]
            for _ in range(rng.choice([0, 0, 1, 2]))
        ]
        edges.append({"bends": bends, "flip": rng.random() < 0.4})
    vessels = []
    for _ in range(rng.randint(1, 3)):
        a, b = sorted(rng.sample(range(n), 2))
        v = {
            "kind": rng.choice(["activity", "activity", "sail", "path"]),
            "a": a, "b": b, "back": rng.random() < 0.5,
            "v": rng.choice([1, 2, 5, 7.5]),
            "trips": rng.choice([1, 1, 2, 3]),
        }
        if rng.random() < 0.4:
            v["eo"] = rng.choice([0.5, 0.8, 2])
        if v["kind"] == "sail":
            if rng.random() < 0.5:
                v["stall"] = rng.choice([1, 10, 100])
                v["more"] = rng.choice([0, 0, 1, 2])
            v["off"] = rng.random() < 0.3
        vessels.append(v)
    strays = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        a, b = sorted(rng.sample(range(n), 2))
        strays.append({
            "a": a, "b": b, "from": rng.randrange(3), "to": rng.randrange(3), "v": rng.choice([1, 4]),
            "off": rng.choice([0, 0, 1e-7, 1e-7, 0.04]),
        })
    return {
        "nodes": nodes, "edges": edges, "vessels": vessels, "stray": strays,
        "sched": {"mode": rng.choice(["fifo", "perm", "iso"]), "seed": rng.getrandbits(30)},
        "hash": rng.getrandbits(30), "t0": rng.choice([0, 0, 1700000000]),
    }


def run_route(case, out):
    """Independent model of sailing over a network: times and places of every leg."""
    t0 = case["t0"]
    env = SimEnv(initial_time=t0)
    env.set_schedule(case["sched"])
    nodes = [tuple(p) for p in case["nodes"]]
    graph = nx.Graph()
    for i, p in enumerate(nodes):
        graph.add_node("n%d" % i, geometry=sg.Point(p))
    lines = []
    for i, e in enumerate(case["edges"]):
        coords = [nodes[i]] + [tuple(b) for b in e["bends"]] + [nodes[i + 1]]
        lines.append(coords)
        if e["flip"]:
            coords = coords[::-1]
        graph.add_edge("n%d" % i, "n%d" % (i + 1), geometry=sg.LineString(coords))
    env.graph = graph
    rng = random.Random(case["hash"])
    Router = object_class("router")
    Site = object_class("site")
    registry = {}
    top = []
    expected = []  # (name, [(time, place)])
    watch = {}
    ships = {}
    legs = 0
    acts = []
    calls = {}

    def seen():
        for name, obj in watch.items():
            xy = (obj.geometry.x, obj.geometry.y)
            if name in visited and visited[name][-1:] != [obj.node]:
                visited[name].append(obj.node)
            h = history[name]
            if h[-1][1] != xy:
                h.append((env.now - t0, xy))

    history, visited = {}, {}
    for k, v in enumerate(case["vessels"]):
        name = "R%d" % k
        ids = list(range(v["a"], v["b"] + 1))
        if v["back"]:
            ids = ids[::-1]
        route = ["n%d" % i for i in ids]
        speed = v["v"] * v.get("eo", 1)
        start = nodes[ids[0]]
        kw = {}
        if v["kind"] == "activity":
            kw["route"] = route
        if v["kind"] == "path":
            coords = []
            for i, j in zip(ids, ids[1:]):
                seg = lines[min(i, j)] if i < j else lines[min(i, j)][::-1]
                coords += seg if not coords else seg[1:]
            kw["path"] = sg.LineString(coords)
        offset = v.get("off")
        here = (start[0] + 0.05, start[1] + 0.03) if offset else start
        obj = Router(env=env, name=name, id="id-" + name, geometry=sg.Point(here), v=v["v"], **kw)
        obj._h = rng.getrandbits(30)
        watch[name] = ships[name] = obj
        history[name] = [(0, here)]
        t = 0
        plan = [(0, here)]
        seglen = [line_length(lines[min(i, j)]) for i, j in zip(ids, ids[1:])]
        if v["kind"] == "sail":
            obj.engine_order = v.get("eo", 1)
            calls[name] = []
            visited[name] = [None]

            def sail(obj=obj, route=route):
                yield from obj.move_over_route(route)

            if v.get("stall"):
                def passed(movable, a, b, route, geometry, name=name, v=v):
                    calls[name].append((a, b, round(env.now - t0, 6), tuple(geometry.coords[0]), tuple(geometry.coords[-1])))
                    return env.timeout(v["stall"])

                obj.on_pass_edge_functions.append(passed)
                more = v.get("more", 0)
                for _ in range(more):
                    obj.on_pass_edge_functions.append(passed)
                out.stats.setdefault("counts", {})["edge_stall"] = 1
            t += geodesic(here, start) / speed
            plan.append((t, start))
            wants = []
            for (i, j), d in zip(zip(ids, ids[1:]), seglen):
                t += d / speed
                plan.append((t, nodes[j]))
                for _ in range(1 + v.get("more", 0) if v.get("stall") else 0):
                    wants.append(("n%d" % i, "n%d" % j, t, nodes[i], nodes[j]))
                    t += v["stall"]
            expected.append((name, plan, wants if v.get("stall") else None))
            env.process(sail())
            legs += len(seglen)
        else:
            total = sum(seglen)
            ends = [start, nodes[ids[-1]]]
            sites = []
            for e in (0, 1):
                s = Site(env=env, name="%s-s%d" % (name, e), id="id-%s-s%d" % (name, e), geometry=sg.Point(ends[e]), capacity=1, level=0, nr_resources=1)
                s._h = rng.getrandbits(30)
                sites.append(s)
            for trip in range(v["trips"]):
                target = 1 - trip % 2
                kw = {"engine_order": v["eo"]} if v.get("eo") else {}
                act = model.MoveActivity(
                    env=env, registry=registry, name="%s-m%d" % (name, trip), id="id-%s-m%d" % (name, trip),
                    mover=obj, destination=sites[target],
                    **kw,
                    **({"start_event": [{"type": "activity", "state": "done", "name": "%s-m%d" % (name, trip - 1)}]} if trip else {}),
                )
                acts.append((act, t, t + total / speed))
                top.append(act)
                t += total / speed
                plan.append((t, ends[target]))
                legs += 1
            expected.append((name, plan, None))
    for k, v in enumerate(case.get("stray", ())):
        stray(env, Router, "X%d" % k, v, nodes, lines, out)
    env.after_step = seen
    model.register_processes(top)
    env.run()
    for k, v in enumerate(case["vessels"]):
        way = ["n%d" % x for x in range(v["a"], v["b"] + 1)]
        way = way[::-1] if v["back"] else way
        if v["kind"] == "sail" and visited["R%d" % k] != [None] + way:
            out.bad("route", "R%d was at nodes %s instead of %s", k, visited["R%d" % k], way)
    tol = 1e-3
    for name, plan, wants in expected:
        want = [plan[0]]
        for t, xy in plan[1:]:
            if xy != want[-1][1]:
                want.append((t, xy))
        have = history[name]
        # the path of a leg may take in places on the way, but no others
        have = [h for h in have]
        if len(have) != len(want) or any(
            not near(a[0], b[0], tol * max(1, b[0] * 1e-3)) or a[1] != b[1] for a, b in zip(have, want)
        ):
            out.bad("route", "%s was at %s, expected %s", name, have, want)
        if wants is not None:
            got = calls[name]
            if len(got) != len(wants) or any(
                a[0] != b[0] or a[1] != b[1] or not near(a[2], b[2], tol * max(1, b[2] * 1e-3)) or a[3] != b[3] or a[4] != b[4]
                for a, b in zip(got, wants)
            ):
                out.bad("route", "%s: edges passed %s, expected %s", name, got, wants)
    for act, a, b in acts:
        ts = [(e["Timestamp"].timestamp() if False else (e["Timestamp"] - EPOCH).total_seconds() - t0, e["ActivityState"]) for e in act.logbook]
        st = [t for t, s in ts if s == "START"]
        en = [t for t, s in ts if s == "STOP"]
        if len(st) != 1 or len(en) != 1 or not near(en[0] - st[0], b - a, tol * max(1, b * 1e-3)):
            out.bad("route", "%s: log %s, expected %s to %s", act.name, ts, a, b)
    out.nontrivial = legs >= 2
    out.stats.update({"steps": env.step_count, "simtime": env.now - t0, "legs": legs, "ties": env.tie_points})
    out.shape = sha([case["vessels"], [h[1] for v in history.values() for h in v]])[:16]
    out.digest = sha(sorted(history.items()))
    out.trace = ["%s %s" % kv for kv in sorted(history.items())]


EPOCH = __import__("datetime").datetime(1970, 1, 1)


def stray(env, Router, name, v, nodes, lines, out):
    """A ship with a route sails from one of its ends to the other, and nowhere else."""
    ends = [nodes[v["a"]], nodes[v["b"]]]
    places = ends + [(6.0, 54.0)]
    if max(abs(ends[0][0] - ends[1][0]), abs(ends[0][1] - ends[1][1])) < 0.03:
        return
    at = tuple(x + v.get("off", 0) for x in places[v["from"]])  # positions are seldom exact
    obj = Router(
        env=env, name=name, id="id-" + name, geometry=sg.Point(at), v=v["v"],
        route=["n%d" % i for i in range(v["a"], v["b"] + 1)],
    )
    to = object_class("site")(
        env=env, name=name + "-s", id="id-%s-s" % name, geometry=sg.Point(places[v["to"]]), capacity=1
    )
    allowed = {v["from"], v["to"]} == {0, 1}
    if v.get("off", 0) > 0.01:  # that is kilometres away
        if any(max(abs(at[0] - e[0]), abs(at[1] - e[1])) < 0.03 for e in ends):
            return
        allowed = False
    total = sum(line_length(lines[i]) for i in range(v["a"], v["b"]))

    def sail():
        begin = env.now
        try:
            yield from obj.move(to)
        except AssertionError:
            if allowed:
                out.bad("route", "%s may not sail %s", name, v)
            elif (obj.geometry.x, obj.geometry.y) != at or env.now != begin:
                out.bad("route", "%s was refused, but went to %s", name, obj.geometry)
        else:
            if not allowed:
                out.bad("route", "%s may sail %s", name, v)
            elif not near(env.now - begin, total / v["v"], 1e-3 + 1e-6 * total):
                out.bad("route", "%s sailed %s s instead of %s", name, env.now - begin, total / v["v"])

    env.process(sail())


# ----------------------------------------------------------------------
# C21
@define
class C21(DiffCheck):
    """No error is lost: what goes wrong in an activity comes out of env.run at that instant."""

    pid, codes = "C21", {"errors", "crash"}
    quick = 9000
    thorough = 120000
    profiles = (
        (2, dict(RAISE, raise_=1)), (2, dict(TREE, plugins=1)), (1, dict(CONTEND, plugins=1)),
        (1, dict(LOOPS, plugins=1)), (1, dict(MULTI, plugins=1)), (1, dict(RUSH, plugins=1)),
    )
    rule = (
        "a case is a scenario with one injected defect: a hook that raises in its k-th call, an "
        "expression that makes no sense or refers to nothing, a transfer of content that does not "
        "exist or whose parties are apart, or a missing duration; non-trivial = the defect was reached"
    )

    def case(self, rng, i):
        weights = [w for w, _ in self.profiles]
        prof = dict(rng.choices([p for _, p in self.profiles], weights)[0])
        prof["raise"] = 0
        sc = gen.make(rng, prof)
        nodes = [n for n in gen.walk(sc["acts"]) if n["t"] != "single"]
        kind = rng.choice(
            ["raise", "raise", "raise", "raise", "se", "cond", "apart", "nodur", "content",
             "rate", "speed", "negative", "column"]
        )
        if not nodes:
            kind = "se"
        case = {"sc": sc, "defect": kind}
        if kind == "raise":
            k = rng.choice([1, 1, 2, 3])
            n = rng.choice(nodes)
            # wrapped leaves are reached more often than not
            plug = {
                "p": "raise", "where": rng.choice(["pre", "post"]), "k": k, "prio": rng.randint(0, 4),
                "exc": rng.choice(
                    ["fault", "value", "key", "index", "assert", "attr", "type", "zero", "runtime", "os", "stop"]
                ),
            }
            n.setdefault("plug", []).append(plug)
            case["name"] = n["n"]
        elif kind == "cond":
            loops = [n for n in nodes if n["t"] == "while"]
            bad = wrap(rng, {"bad": rng.choice(BAD)})
            if not loops:
                node = {"t": "while", "n": "BADW", "cond": bad, "subs": [{"t": "basic", "n": "BADS", "dur": 1}]}
                insert(rng, sc, node)
                case["name"] = "BADW"
            else:
                n = rng.choice(loops)
                n["cond"] = bad
                case["name"] = n["n"]
        elif kind == "se":
            e = wrap(rng, {"bad": rng.choice(BAD)})
            if nodes and rng.random() < 0.7:
                n = rng.choice(nodes)
            else:
                n = {"t": "basic", "n": "BAD", "dur": 1}
                insert(rng, sc, n)
            n["se"] = e
            case["name"] = n["n"]
        else:
            sc["objs"]["XS"] = {"kind": "site", "pos": 2, "slots": 1, "cont": {"default": [9, 9]}}
            sc["objs"]["XD"] = {"kind": "site", "pos": 2, "slots": 1, "cont": {"default": [9, 0]}}
            sc["objs"]["XP"] = {"kind": "crane", "pos": 2, "slots": 1, "lr": 1, "ur": 1}
            n = {"t": "shift", "n": "BADX", "proc": "XP", "org": "XS", "dst": "XD", "amt": 2}
            if kind == "apart":
                sc["objs"][rng.choice(["XS", "XD", "XP"])]["pos"] = 3
                n["dur"] = 1
            if kind == "content":
                n.update(rng.choice([{"cid": "nothing"}, {"cid": "nothing", "dur": 1}, {"cid": "nothing", "phase": "loading"}]))
                n["dur"] = n.get("dur", 1)
            if kind == "rate":
                # content that cannot be moved at all, a fault of the user's numbers
                n["phase"] = rng.choice(["loading", "unloading"])
                sc["objs"]["XP"].update(lr=0, ur=0)
                sc.pop("numpy", None)  # numpy divides by zero without an error
            if kind == "speed":
                sc["objs"]["XM"] = {"kind": "mover", "pos": 1, "slots": 1, "v": [0, 0]}
                sc.pop("numpy", None)
                n = {"t": "move", "n": "BADX", "mover": "XM", "dest": "XS"}
            if kind == "negative":
                n = {"t": "basic", "n": "BADX", "dur": -1}
            if kind == "column":
                n["dur"] = 1
                n["plug"] = [
                    {"p": "weather", "ts": [0, 10, 20], "val": [1.0, 3.0, 1.0], "max": 2.0, "wl": 1, "cols": "missing"}
                ]
            insert(rng, sc, n)
            case["name"] = "BADX"
        return case

    def compare(self, case, out):
        sc = copy.deepcopy(case["sc"])
        if not defective(sc, case):
            return
        run = None
        try:
            with cpu_guard(20):
                run = Run(sc, checks=False)
                run.go()
                run.rec.observe(None)
        except (Hang, HarnessError):
            raise
        except Exception as e:  # noqa: BLE001
            if run is None and in_repo(e) or case["defect"] in ("se", "cond", "nodur", "content"):
                # refused while building: that is as early as it gets
                out.nontrivial = True
                out.stats = {"counts": {"refused": 1}}
                return
            raise
        w = run.world
        self.base(out, run)
        out.ties = list(w.env.tie_log)
        name, kind = case["name"], case["defect"]
        insts = run.rec.insts.get(name, [])
        err = run.error
        chain = []
        e = err
        while e is not None:
            chain.append(e)
            e = e.__cause__
        out.nontrivial = False
        if kind == "raise":
            if w.raised:
                out.nontrivial = True
                out.stats["counts"]["raise"] = 1
                hit = any(str(c.args[0] if c.args else "").startswith("injected-") for c in chain)
                if err is None:
                    out.bad("errors", "the error raised in %s is lost, the run goes on to %s", w.raised[0], w.env.now)
                elif not hit and other_failure(chain, run, w):
                    pass  # something else failed in the same instant and came out first
                elif not hit:
                    out.bad("errors", "the error raised in %s came out as %r", w.raised[0], err)
                else:
                    at = [c for c in run.rec.plug if c[4].get("p") == "raise"]
                    if at and not near(w.env.now, at[-1][1]):
                        out.bad("errors", "the error raised at %s came out at %s", at[-1][1], w.env.now)
                    wrapper = [i for v in run.rec.insts.values() for i in v if i.name in ancestors(w, w.raised[0]) and i.done_seq is not None and i.ok and i.done_t >= at[-1][1] and i.reg_t <= at[-1][1] and i is run.rec.insts[i.name][-1] and i.done_seq > at[-1][0]]
                    if wrapper:
                        out.bad("errors", "%s finished although %s failed", wrapper[0], w.raised[0])
            return
        if kind in ("se", "content"):
            out.nontrivial = True
            what = {"se": "start event", "content": "content"}[kind]
            out.stats["counts"]["bad_" + what.replace(" ", "_")] = 1
            if err is None:
                out.bad("errors", "the %s of %s makes no sense and nobody is told", what, name)
            elif w.env.now != w.t0:
                out.bad("errors", "the %s of %s was refused at %s", what, name, w.env.now)
            return
        started = [i for i in insts if any(x.state == "START" and not x.label for x in i.entries)]
        if kind == "cond":
            out.stats["counts"]["bad_condition"] = 1
            if started:
                out.nontrivial = True
                if err is None:
                    out.bad("errors", "the condition of %s makes no sense and nobody is told", name)
                elif not near(w.env.now, started[0].entries[-1].now) and not in_chain(chain, run, name):
                    out.bad("errors", "the condition of %s was refused at %s", name, w.env.now)
            return
        out.stats["counts"]["bad_transfer"] = 1
        moved = [i for i in insts if i.moves]
        finished = [i for i in insts if i.done_seq is not None and i.ok]
        failed = [i for i in insts if i.done_seq is not None and not i.ok]
        if moved or finished:
            out.nontrivial = True
            out.bad("errors", "%s cannot be done, but it %s", name, "finished" if finished else "moved content")
        elif failed:
            out.nontrivial = True
            if err is None:
                out.bad("errors", "%s failed and nobody is told", name)
        elif started and err is None:
            out.nontrivial = True
            out.bad("errors", "%s cannot be done, but it is going on", name)


def wrap(rng, bad):
    """Hide it in an expression that makes sense, or not."""
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        good = rng.choice([{"time": 0}, {"time": 3}, {"time": 50}])
        bad = rng.choice([[bad], {"or": [good, bad]}, {"and": [bad, good]}, {"or": [bad]}, [good, bad], {"and": [bad]}])
    return bad


def defective(sc, case):
    """Whether the numbers still make no sense (a smaller case may have better ones)."""
    kind = case["defect"]
    if kind not in ("rate", "speed", "negative", "column"):
        return True
    if kind in ("rate", "speed") and sc.get("numpy"):
        return False
    node = next((n for n in gen.walk(sc["acts"]) if n["n"] == case["name"]), None)
    if node is None:
        return False
    if kind == "rate":
        o = sc["objs"].get("XP", {})
        return "dur" not in node and o.get("lr") == 0 and o.get("ur") == 0
    if kind == "speed":
        return node["t"] == "move" and "dur" not in node and sc["objs"].get("XM", {}).get("v") == [0, 0]
    if kind == "negative":
        return node["dur"] < 0
    return any(p.get("cols") == "missing" for p in node.get("plug", ()))


def in_chain(chain, run, name):
    return any(i.exc is c for i in run.rec.insts[name] for c in chain)


def other_failure(chain, run, w):
    """The error is that of another execution that failed by itself in the last instant."""
    for insts in run.rec.insts.values():
        for i in insts:
            if i.done_seq is not None and not i.ok and any(i.exc is c for c in chain):
                if not str(i.exc).startswith("injected-") and near(i.done_t, w.env.now):
                    return True
    return False


def ancestors(w, name):
    out = set()
    while w.parent.get(name) is not None:
        name = w.parent[name]
        out.add(name)
    return out


def insert(rng, sc, node):
    """Put an activity somewhere into a scenario."""
    holders = [n for n in gen.walk(sc["acts"]) if n.get("subs")]
    if holders and rng.random() < 0.5:
        h = rng.choice(holders)
        h["subs"].insert(rng.randint(0, len(h["subs"])), node)
    else:
        sc["acts"].insert(rng.randint(0, len(sc["acts"])), node)


# ----------------------------------------------------------------------
# C27
@define
class C27(DiffCheck):
    """The order of registration means nothing; every activity once; names are unique."""

    pid, codes = "C27", {"order"}
    quick = 4000
    thorough = 120000
    rule = (
        "a case is a set of activities that do not compete (own vessels and sites, generic numbers), "
        "registered in several seeded orders and in several calls, or a scenario with a duplicate "
        "name; non-trivial = two or more activities finished, or the duplicate was refused"
    )

    def case(self, rng, i):
        if i % 9 == 4:
            sc = gen.make(rng, rng.choice([TREE, DEFAULT, LOOPS]))
            names = [n for n in gen.walk(sc["acts"])]
            if len(names) >= 2:
                return {"sc": sc, "dup": [rng.randrange(len(names)), rng.randrange(len(names) - 1)]}
        g = gen.G(rng, {"plugins": rng.choice([0, 0.5]), "weather": 0, "tight": 0, "se": 0.6, "keep": 0.3, "alog": 0})
        g.use_uuid = rng.random() < 0.2
        g.p["zero"] = 0
        acts = []
        names = []
        for _ in range(rng.randint(2, 5)):
            if rng.random() < 0.35:
                cap = rng.choice([1, 2, 3])
                trips = rng.choice([1, 2])
                o = g.site(0, 50, 40)
                d = g.site(1, 50, 0)
                v = g.vessel(0, cap)
                own = []
                g.p["se"] = 0
                acts.append(g.thread(v, o, d, None, None, trips, None, own))
                g.p["se"] = 0.6
                names += [n["n"] for n in [acts[-1]] if n["t"] != "repeat"]
            else:
                acts.append(g.tree(names, rng.choice([0, 1, 2, 2])))
        outer = [a["n"] for a in acts]
        r = rng
        for n in gen.walk(acts):
            # nothing coincides except at the very beginning
            if "dur" in n and n["dur"] is not None:
                n["dur"] = (r.randrange(300, 9000) * 2 + 1) / 1024
            for s in n.get("plug", ()):
                for key in ("pre", "post"):
                    if s.get(key):
                        s[key] = (r.randrange(100, 3000) * 2 + 1) / 1024
            if n.get("cond") is not None:
                n["cond"] = {"time": (r.randrange(1000, 20000) * 2 + 1) / 1024 / 2}
            if n.get("se") is not None:
                n["se"] = order_expr(r, n, acts, outer)
                if n["se"] is None:
                    del n["se"]
        for o in g.objs.values():
            for key in ("lr", "ur"):
                if key in o:
                    o[key] = r.randrange(300, 3000) / 1024
        sc = {
            "v": 1, "fam": "order", "objs": g.objs, "acts": acts, "horizon": 100000,
            "sched": {"mode": "fifo"}, "cap": 6000,
        }
        if rng.random() < 0.5:
            sc["hash"] = rng.getrandbits(30) | 1
        orders = []
        for _ in range(3):
            p = list(range(len(acts)))
            rng.shuffle(p)
            cuts = sorted(rng.sample(range(1, len(acts)), rng.choice([0, 0, 1]))) if len(acts) > 1 else []
            orders.append({"perm": p, "cuts": cuts})
        return {"sc": sc, "orders": orders}

    def compare(self, case, out):
        if "dup" in case:
            return self.duplicate(case, out)
        ref = None
        for o in [None] + case["orders"]:
            sc = copy.deepcopy(case["sc"])
            with cpu_guard(20):
                run = Run(sc, checks=False)
                w = run.world
                calls = {"n": 0}

                def start(w=w, o=o, calls=calls):
                    top = list(w.top)
                    groups = [top]
                    if o is not None:
                        if sorted(o["perm"]) == list(range(len(top))):
                            top = [top[j] for j in o["perm"]]
                        cuts = [0] + [c for c in o["cuts"] if c < len(top)] + [len(top)]
                        groups = [top[a:b] for a, b in zip(cuts, cuts[1:]) if b > a]
                    for gpart in groups:
                        model.register_processes(list(gpart))
                    w._start_actors()
                    w.rec.observe(None)

                w.start = start
                run.go()
                run.rec.observe(None)
            res = result(run, per=True)
            if ref is None:
                ref = res
                self.base(out, run)
                continue
            out.stats["counts"]["registration_order"] = out.stats["counts"].get("registration_order", 0) + 1
            if ref["error"] or res["error"]:
                # which of several errors of one instant comes first does depend on the order
                if bool(ref["error"]) != bool(res["error"]):
                    out.bad("order", "registered as %s: errors %s / %s", o, ref["error"], res["error"])
                continue
            d = differs(ref, res)
            if d:
                out.bad("order", "registered as %s: %s", o, d)
                return
            # every activity is set going once per execution of its parent
            for name, insts in run.rec.insts.items():
                if w.parent[name] is None and len(insts) != 1:
                    out.bad("order", "%s was set going %d times", name, len(insts))
                    return

    def duplicate(self, case, out):
        sc = copy.deepcopy(case["sc"])
        w = World(sc)
        acts = []

        def collect(node, act):
            acts.append(act)
            for sub in getattr(act, "sub_processes", ()):
                collect(None, sub)

        for node, act in zip(sc["acts"], w.top):
            collect(node, act)
        i, j = case["dup"]
        i %= len(acts)
        j %= len(acts)
        if i == j:
            j = (j + 1) % len(acts)
        if i == j:
            return
        acts[j].name = acts[i].name
        out.stats = {"counts": {"duplicate_name": 1}}
        out.shape = sha(case)[:16]
        out.digest = out.shape
        try:
            model.register_processes(list(w.top))
        except Exception:  # noqa: BLE001
            return
        out.bad("order", "two activities with the name %s were registered", acts[i].name)

    def shrinks(self, case):
        if "orders" in case:
            for j in range(len(case["orders"])):
                if len(case["orders"]) > 1:
                    yield dict(case, orders=case["orders"][:j] + case["orders"][j + 1:])
            for j, o in enumerate(case["orders"]):
                if o["cuts"]:
                    new = copy.deepcopy(case)
                    new["orders"][j]["cuts"] = []
                    yield new


def order_expr(r, node, acts, outer):
    """A start event on a time or on earlier top level activities: no cycles, no coincidence."""
    mine = next(k for k, a in enumerate(acts) if any(x is node for x in gen.walk([a])))
    earlier = outer[:mine]

    def leaf():
        if earlier and r.random() < 0.6:
            return {"act": r.choice(earlier)}
        return {"time": (r.randrange(200, 20000) * 2 + 1) / 1024 / 2}

    if r.random() < 0.5:
        return leaf()
    parts = [leaf() for _ in range(r.randint(1, 3))]
    return r.choice([parts, {"and": parts}, {"or": parts}])


__all__ = ["C16", "C21", "C27", "Check", "PLUG", "math", "trace", "execute"]
