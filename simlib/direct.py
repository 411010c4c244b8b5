"""C28: the core objects, driven by the user's own processes instead of by activities."""

import copy
import random
import warnings
from functools import partial

import pyproj
import shapely.geometry as sg

import openclsim.model as model
from openclsim.core.log import LogState
from openclsim.plugins.weather import WeatherCriterion

from .base import Check, Outcome, sha
from .build import POINTS, object_class, rate_fn, speed_fn
from .env import SimEnv
from .props import define
from .run import HarnessError, Hang, cpu_guard, in_repo
from .spec import INF, geodesic, near

OPS = {
    "ge": lambda a, b: a >= b, "gt": lambda a, b: a > b,
    "le": lambda a, b: a <= b, "lt": lambda a, b: a < b,
}
EPOCH = __import__("datetime").datetime(1970, 1, 1)
HORIZON = 200000


def half(rng, lo, hi):
    """A multiple of 1/2: sums of them are exact."""
    return rng.randint(2 * lo, 2 * hi) / 2


# ----------------------------------------------------------------------
# cases
def direct_case(rng):
    objs = {}
    n_pos = rng.randint(1, 3)

    def cont(multi, big):
        cap = lambda: half(rng, 2, rng.choice([6, 12, 30]) if big else 8)  # noqa: E731
        ids = ["default"]
        if multi:
            ids = rng.sample(["sand", "rock", "default"], rng.choice([1, 2, 2, 3]))
        out = {}
        for c in ids:
            k = cap()
            out[c] = [k, rng.choice([0, k, half(rng, 0, int(k))])]
        return out

    kinds = [rng.choice(["site", "site", "msite"]) for _ in range(rng.randint(2, 4))]
    for j, kind in enumerate(kinds):
        objs["S%d" % j] = {"kind": kind, "pos": rng.randrange(n_pos), "cont": cont(kind == "msite", True)}
    ships = []
    for j in range(rng.choice([0, 1, 1, 2, 2, 3])):
        kind = rng.choice(["vessel", "vessel", "mvessel", "barge", "mover"])
        name = "V%d" % j
        objs[name] = {"kind": kind, "pos": rng.randrange(n_pos), "v": rng.choice([[10, 10], [8, 4], [2, 5], [1, 1]])}
        if kind != "mover":
            objs[name]["cont"] = cont(kind == "mvessel", False)
        if rng.random() < 0.3:
            objs[name]["eo"] = rng.choice([0.5, 0.8, 2])
        ships.append(name)
    for j in range(rng.choice([0, 1, 1, 2])):
        objs["K%d" % j] = {"kind": "crane", "pos": rng.randrange(n_pos)}
    for n, o in objs.items():
        if rng.random() < 0.2:
            o["node"] = "node-" + n
        if o["kind"] in ("vessel", "mvessel", "barge", "crane"):
            for key in ("lr", "ur"):
                o[key] = rng.choice([1, 2, 0.5, {"a": 1, "b": 0}, {"a": 0.5, "b": 0.25}])
            for key in ("lm", "um"):
                if rng.random() < 0.2:
                    o[key] = rng.choice([0.5, 1])
    scripts = []
    owners = ships + [None] * rng.randint(1 if not ships else 0, 3)
    for owner in owners:
        scripts.append({"own": owner, "ops": script(rng, objs, owner, n_pos)})
    for _ in range(rng.choice([1, 2, 2, 3])):
        # content comes and goes from outside
        ends = [
            (op[key], op["cid"], key) for s in scripts for op in s["ops"] for key in ("org", "dst", "obj")
            if key in op and "cid" in op
        ]
        n, cid, key = rng.choice(ends) if ends else ("S0", list(objs["S0"]["cont"])[0], "obj")
        way = {"org": ["put", "put", "get"], "dst": ["get", "get", "put"], "obj": ["put", "get"]}[key]
        ops = []
        for _ in range(rng.randint(3, 15)):
            ops.append({"op": "wait", "dt": rng.choice([0.5, 1, 1, 2, 3, 10, 60]), "id": "w"})
            ops.append({"op": rng.choice(way), "obj": n, "cid": cid, "x": half(rng, 0, 6) + 0.5, "id": "w"})
        scripts.append({"own": None, "ops": ops})
    return {
        "objs": objs, "scripts": scripts,
        "sched": {"mode": rng.choice(["fifo", "perm", "iso"]), "seed": rng.getrandbits(30)},
        "hash": rng.getrandbits(30), "t0": rng.choice([0, 0, 0, 1700000000, 12345]),
    }


def script(rng, objs, owner, n_pos):
    pos = objs[owner]["pos"] if owner else None
    holders = [n for n in objs if n.startswith("S")]
    ops = []
    for _ in range(rng.randint(1, 7)):
        kinds = ["wait", "put", "get", "until", "until", "log", "ask", "misuse", "crane", "crane"]
        if owner:
            kinds += ["move", "move", "load", "unload", "load", "unload"]
        kind = rng.choice(kinds)
        op = {"op": kind}
        if kind == "wait":
            op["dt"] = rng.choice([0, 0.5, 1, 1, 2, 5, 10])
        elif kind in ("put", "get"):
            op["obj"] = rng.choice(holders)
            op["cid"] = rng.choice(list(objs[op["obj"]]["cont"]))
            op["x"] = half(rng, 0, 6) + 0.5
        elif kind == "until":
            op["obj"] = rng.choice([n for n in objs if "cont" in objs[n]])
            op["cid"] = rng.choice(list(objs[op["obj"]]["cont"]))
            op["rel"] = rng.choice(["ge", "gt", "le", "lt", "full", "empty"])
            op["level"] = half(rng, 0, int(objs[op["obj"]]["cont"][op["cid"]][0]))
        elif kind == "log":
            op["obj"] = owner or rng.choice(holders)
            op["state"] = rng.choice(["START", "STOP", "WAIT_START", "WAIT_STOP", "UNKNOWN"])
            op["label"] = rng.choice([None, {"type": "subprocess", "ref": "note"}])
            op["extra"] = rng.choice([None, {"depth": 3}])
        elif kind == "ask":
            op["what"] = rng.choice(["at", "near", "far", "distance", "amount", "state", "list", "speed", "old_id", "old_log"])
            op["a"], op["b"] = rng.choice(list(objs)), rng.choice(list(objs))
            op["x"] = rng.choice([None, 1, 2.5, 100])
            op["tol"] = rng.choice([None, 1, 100, 3000, 100000])
            op["eo"] = rng.choice([1, 0.5, 2])
        elif kind == "misuse":
            op["what"] = rng.choice(sorted(MISUSES))
            op["a"], op["b"] = owner or rng.choice(holders), rng.choice(list(objs))
        elif kind == "move":
            if rng.random() < 0.5:
                op["to"] = rng.choice(holders)
                pos = objs[op["to"]]["pos"]
            else:
                op["to"] = rng.choice([n for n in objs if n[0] in "SK"])
                pos = objs[op["to"]]["pos"]
            if rng.random() < 0.4:
                op["dur"] = rng.choice([0, 0.5, 1, 3, 60])
            if rng.random() < 0.3:
                op["eo"] = rng.choice([0.5, 0.8, 1, 2])
        else:
            if kind == "crane":
                cranes = [n for n in objs if n.startswith("K")]
                if owner and rng.random() < 0.7:
                    cranes = [n for n in cranes if objs[n]["pos"] == pos]
                if not cranes:
                    continue
                op["proc"] = rng.choice(cranes)
                here = [n for n in holders if objs[n]["pos"] == objs[op["proc"]]["pos"]]
                if owner and "cont" in objs[owner] and pos == objs[op["proc"]]["pos"]:
                    here += [owner, owner]
                if len(set(here)) < 2:
                    continue
                op["org"] = rng.choice(here)
                op["dst"] = rng.choice([n for n in here if n != op["org"]])
            else:
                here = [n for n in holders if objs[n]["pos"] == pos]
                if not here or objs[owner]["kind"] == "mover":
                    continue
                op["proc"] = owner
                ends = [rng.choice(here), owner]
                op["org"], op["dst"] = ends if kind == "load" else ends[::-1]
            common = [c for c in objs[op["org"]]["cont"] if c in objs[op["dst"]]["cont"]]
            if not common:
                continue
            op["op"] = "process"
            op["cid"] = rng.choice(common)
            op["x"] = rng.choice([0.5, 1, 2, half(rng, 0, 5) + 0.5])
            op["res"] = rng.choice([op["x"], op["x"], half(rng, 1, 6)])
            op["fn"] = rng.choice(["loading", "unloading", "fixed", "fixed"])
            op["dur"] = rng.choice([0, 0.5, 1, 1, 2, 4])
        if op["op"] not in ("wait", "ask", "misuse") or True:
            op["id"] = "p%d" % rng.randrange(10**6)
        ops.append(op)
    return ops


# ----------------------------------------------------------------------
# what must be refused, and with which error; all of them leave no trace
def _operator(w, op):
    obj = w.objs[op["a"]]
    obj.container.get_container_event(level=1, operator="eq")


def _no_destination(w, op):
    next(w.objs[op["a"]].move())


def _two_ids(w, op):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        object_class("log")(env=w.env, name="x", id="a", ID="b")


def _half_label(w, op):
    w.objs[op["a"]].log_entry_v1(w.env.now, "x", LogState.START, activity_label={"type": "subprocess"})


def _no_ref(w, op):
    w.objs[op["a"]].log_entry_v1(w.env.now, "x", LogState.START, activity_label={"ref": "y"})


def _reserved_id(w, op):
    w.objs[op["a"]].container.initialize_container(
        [{"id": "extra_reservations", "capacity": 3, "level": 1}]
    )


def _no_limit(w, op):
    WeatherCriterion(name="c", condition="Hs", window_length=10)


def _two_limits(w, op):
    WeatherCriterion(name="c", condition="Hs", window_length=10, maximum=1, minimum=0)


def _elsewhere(w, op):
    far = object_class("crane")(
        env=w.env, name="far", id="far", geometry=sg.Point(3.0, 51.0), nr_resources=1,
        loading_rate=1, unloading_rate=1,
    )
    a = w.objs[op["a"]]
    next(far.process(a, a, lambda o, d: (1, 0), 0))


def _no_graph(w, op):
    object_class("router")(env=w.env, name="r", id="r", geometry=POINTS[0], nr_resources=1, route=["a", "b"])


def _no_route(w, op):
    r = object_class("router")(env=w.env, name="r", id="r", geometry=POINTS[0], nr_resources=1)
    r.compute_distance(POINTS[0], POINTS[1])


MISUSES = {
    "operator": (_operator, AssertionError, "cont"),
    "no_destination": (_no_destination, ValueError, "ship"),
    "two_ids": (_two_ids, ValueError, None),
    "half_label": (_half_label, AssertionError, None),
    "no_ref": (_no_ref, AssertionError, None),
    "reserved_id": (_reserved_id, AssertionError, "cont"),
    "no_limit": (_no_limit, AssertionError, None),
    "two_limits": (_two_limits, AssertionError, None),
    "elsewhere": (_elsewhere, AssertionError, "cont"),
    "no_graph": (_no_graph, AssertionError, None),
    "no_route": (_no_route, ValueError, None),
}


# ----------------------------------------------------------------------
class Op:
    """One call of a user process and what was seen of it."""

    def __init__(self, who, k, spec):
        self.who, self.k, self.spec = who, k, spec
        self.t = self.end = None
        self.level = {}  # levels when it was made
        self.moves = []  # (seq, t, obj, cid, delta, level)
        self.error = None

    def __repr__(self):
        return "%s.%d %s" % (self.who, self.k, self.spec["op"])


class Direct:
    def __init__(self, case, out):
        self.case, self.out = case, out
        self.sc = case["objs"]
        self.t0 = case["t0"]
        self.env = SimEnv(initial_time=self.t0)
        self.env.set_schedule(case["sched"])
        self.env.step_cap = 20000
        rng = random.Random(case["hash"])
        self.objs = {}
        for name, o in self.sc.items():
            self.objs[name] = self.build(name, o)
            self.objs[name]._h = rng.getrandbits(30)
        self.hist = {}  # (obj, cid) -> [(seq, t, level, op)]
        self.places = {}  # ship -> [(t, place)]
        self.seq = 0
        self.current = {}  # process -> Op
        self.ops = []
        for name, o in self.sc.items():
            for cid, (cap, level) in o.get("cont", {}).items():
                self.hist[name, cid] = [(0, -INF, level, None)]
            if name.startswith("V"):
                self.places[name] = [(-INF, self.place(name))]
        for j, s in enumerate(case["scripts"]):
            p = self.env.process(self.run_script("P%d" % j, s))
            self.current[p] = None
        self.env.on_switch = lambda proc: self.sample(self.current.get(proc))
        self.env.after_step = lambda: self.sample(None)

    def build(self, name, o):
        kind = o["kind"]
        kw = dict(env=self.env, name=name, id="id-" + name, geometry=POINTS[o["pos"]])
        if "node" in o:
            kw["node"] = o["node"]
        if kind in ("site", "vessel", "barge"):
            kw["capacity"] = o["cont"]["default"][0]
            if o["cont"]["default"][1]:
                kw["level"] = o["cont"]["default"][1]
        if kind in ("msite", "mvessel"):
            kw["initials"] = [{"id": c, "capacity": v[0], "level": v[1]} for c, v in o["cont"].items()]
        if kind in ("vessel", "mvessel"):
            kw["compute_v"] = speed_fn(o["v"])
        if kind in ("barge", "mover"):
            if o["v"][0] != 1:
                kw["v"] = o["v"][0]
        if "eo" in o:
            kw["engine_order"] = o["eo"]
        if kind in ("vessel", "mvessel", "barge", "crane"):
            kw.update(loading_rate=rate_fn(o["lr"]), unloading_rate=rate_fn(o["ur"]))
            if "lm" in o:
                kw["load_manoeuvring"] = o["lm"]
            if "um" in o:
                kw["unload_manoeuvring"] = o["um"]
        return object_class(kind)(**kw)

    def place(self, name):
        g = self.objs[name].geometry
        return (g.x, g.y)

    def cap(self, obj, cid):
        return self.sc[obj]["cont"][cid][0]

    def level(self, obj, cid):
        return self.hist[obj, cid][-1][2]

    # -- observation -----------------------------------------------------
    def sample(self, op):
        self.seq += 1
        now = self.env.now
        for (obj, cid), h in self.hist.items():
            lv = self.objs[obj].container.get_level(cid)
            if lv != h[-1][2]:
                if op is None:
                    self.out.bad("direct", "%s/%s changed from %s to %s by nobody", obj, cid, h[-1][2], lv)
                else:
                    op.moves.append((self.seq, now, obj, cid, lv - h[-1][2], lv))
                h.append((self.seq, now, lv, op))
        for name, h in self.places.items():
            xy = self.place(name)
            if xy != h[-1][1]:
                h.append((now, xy))

    # -- the user's process ----------------------------------------------
    def run_script(self, who, s):
        env = self.env
        for k, spec in enumerate(s["ops"]):
            op = Op(who, k, spec)
            self.ops.append(op)
            me = env.active_process
            self.sample(self.current[me])
            self.current[me] = op
            op.t = env.now
            op.level = {key: h[-1][2] for key, h in self.hist.items()}
            op.seq = self.seq
            op.logs = {n: len(o.logbook) for n, o in self.objs.items()}
            try:
                yield from self.perform(op, s)
            except (AssertionError, ValueError, AttributeError) as e:
                op.error = e
            self.sample(op)
            op.end = env.now
            op.end_seq = self.seq

    def perform(self, op, s):
        env, spec = self.env, op.spec
        kind = spec["op"]
        if kind == "wait":
            yield env.timeout(spec["dt"])
        elif kind in ("put", "get"):
            obj, cid, x = spec["obj"], spec["cid"], spec["x"]
            level = op.level[obj, cid]
            free = self.cap(obj, cid) - level
            op.x = min(x, free if kind == "put" else level)
            if op.x <= 0:
                op.x = 0
                return
            yield getattr(self.objs[obj].container, kind)(op.x, cid)
        elif kind == "until":
            cont = self.objs[spec["obj"]].container
            if spec["rel"] == "full":
                yield cont.get_full_event(spec["cid"])
            elif spec["rel"] == "empty":
                yield cont.get_empty_event(id_=spec["cid"])
            else:
                yield cont.get_container_event(spec["level"], spec["rel"], id_=spec["cid"])
        elif kind == "log":
            kw = {"additional_state": spec["extra"]} if spec["extra"] else {}
            self.objs[spec["obj"]].log_entry_v1(
                env.now, spec["id"], LogState[spec["state"]], activity_label=copy.copy(spec["label"]), **kw
            )
        elif kind == "move":
            ship = self.objs[s["own"]]
            ship.activity_id = spec["id"]
            op.ship = s["own"]
            op.frm = self.place(s["own"])
            kw = {}
            if "dur" in spec:
                kw["duration"] = spec["dur"]
            if "eo" in spec:
                kw["engine_order"] = spec["eo"]
            yield from ship.move(self.objs[spec["to"]], **kw)
        elif kind == "process":
            proc, org, dst = (self.objs[spec[k]] for k in ("proc", "org", "dst"))
            cid, x = spec["cid"], spec["x"]
            if spec["fn"] == "fixed":
                fn = lambda o, d: (spec["dur"], x)  # noqa: E731
            else:
                fn = partial(getattr(proc, spec["fn"]), amount=x, id_=cid)
            dst.container.put(spec["res"], cid + "_reservations")
            org.container.get(spec["res"], cid + "_reservations")
            proc.activity_id = spec["id"]
            yield from proc.process(org, dst, fn, spec["res"], id_=cid)
        elif kind == "ask":
            self.ask(op)
        elif kind == "misuse":
            self.misuse(op)

    def misuse(self, op):
        fn, error, needs = MISUSES[op.spec["what"]]
        a = op.spec["a"]
        if needs == "cont" and "cont" not in self.sc[a] or needs == "ship" and not a.startswith("V"):
            return
        before = {n: (len(o.logbook), dict(o.get_state())) for n, o in self.objs.items()}
        self.out.stats["counts"]["misuse"] = self.out.stats["counts"].get("misuse", 0) + 1
        try:
            fn(self, op.spec)
        except error:
            pass
        else:
            self.out.bad("direct", "%s: misuse %s was accepted", op, op.spec["what"])
        after = {n: (len(o.logbook), dict(o.get_state())) for n, o in self.objs.items()}
        if before != after:
            self.out.bad("direct", "%s: misuse %s left a trace", op, op.spec["what"])

    def xy(self, name):
        return self.place(name)

    def ask(self, op):
        bad = self.out.bad
        a, b = op.spec["a"], op.spec["b"]
        oa, ob = self.objs[a], self.objs[b]
        what = op.spec["what"]
        d = geodesic(self.xy(a), self.xy(b))
        if what == "at":
            tol = op.spec["tol"]
            have = oa.is_at(ob) if tol is None else oa.is_at(ob, tolerance=tol)
            if bool(have) != (d < (100 if tol is None else tol)):
                bad("direct", "%s: %s is_at %s with tolerance %s: %s at %s m", op, a, b, tol, have, d)
        elif what == "near":
            x, y = self.xy(a)
            spot = sg.Point(*pyproj.Geod(ellps="WGS84").fwd(x, y, 37.0, 100 + (op.spec["x"] or -1.5))[:2])
            there = object_class("site")(env=self.env, name="spot", id="spot", geometry=spot, capacity=1)
            if oa.is_at(there) != (op.spec["x"] is None) or there.is_at(oa) != (op.spec["x"] is None):
                bad("direct", "%s: is_at at a distance of %s m", op, 100 + (op.spec["x"] or -1.5))
        elif what == "far":
            x, y = self.xy(a)
            spots = [
                (x + 180, y), (x - 180, y), (x + 360, y), (-x, y), (x, -y), (-x, -y), (y, x), (x, y + 1), (x + 1, y),
                (x + 90, y), (x, 90 - y), (x + 0.01, y + 0.01), (x + 1e-9, y), (x, y, 5),
            ]
            spot = spots[int(op.spec["eo"] * 4 + 2 * (op.spec["x"] or 0) + (op.spec["tol"] or 3)) % len(spots)]
            there = object_class("site")(env=self.env, name="spot", id="spot", geometry=sg.Point(spot), capacity=1)
            d = geodesic((x, y), spot[:2])
            if abs(d - 100) > 1e-3 and (oa.is_at(there) != (d < 100) or there.is_at(oa) != (d < 100)):
                bad("direct", "%s: %s is_at %s at a distance of %s m", op, (x, y), spot, d)
        elif what == "speed" and a.startswith("V"):
            want = self.speed(a, op)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if not near(oa.v, want, 1e-9) or not near(oa.current_speed, want, 1e-9):
                    bad("direct", "%s: speed %s, %s instead of %s", op, oa.v, oa.current_speed, want)
        elif what == "old_id":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                x = object_class("log")(env=self.env, name="x", ID="old")
            y = object_class("log")(env=self.env, name="y", id="new")
            z = object_class("log")(env=self.env, name="z")
            if (x.id, x.name, y.id) != ("old", "x", "new") or not z.id or z.id in (x.id, y.id, a):
                bad("direct", "%s: ids %s, %s, %s", op, x.id, y.id, z.id)
        elif what == "old_log":
            x = object_class("log")(env=self.env, name="x", id="x")
            t = self.env.now + (op.spec["x"] or 0)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                x.log_entry("note", t, 7, oa.geometry)
                x.log_entry("other", value=8, t=t, geometry_log=None)
                for args in (("note",), ("note", "yesterday", 7, None)):
                    try:
                        x.log_entry(*args)
                    except AssertionError:
                        continue
                    bad("direct", "%s: log entry %s was accepted", op, args)
            have = [(e["Message"], e["Value"], e["Geometry"]) for e in x.logbook]
            if have != [("note", 7, oa.geometry), ("other", 8, None)]:
                bad("direct", "%s: old log entries %s", op, have)
        elif what == "distance" and a.startswith("V"):
            have = oa.compute_distance(oa.geometry, ob.geometry)
            if not near(have, d, 1e-3):
                bad("direct", "%s: distance %s instead of %s", op, have, d)
            eo = op.spec["eo"]
            have = oa.compute_duration(oa.geometry, ob.geometry, engine_order=eo)
            want = d / (self.speed(a, op) * eo)
            if not near(have, want, 1e-3):
                bad("direct", "%s: duration %s instead of %s", op, have, want)
        elif what == "amount" and "cont" in self.sc[a] and "cont" in self.sc[b] and a != b:
            for cid in self.sc[a]["cont"]:
                if cid not in self.sc[b]["cont"]:
                    continue
                for proc in self.objs.values():
                    if not hasattr(proc, "determine_processor_amount"):
                        continue
                    level = op.level[a, cid]
                    free = self.cap(b, cid) - op.level[b, cid]
                    want = min(level, free) if op.spec["x"] is None else min(level, free, op.spec["x"])
                    if want <= 0:
                        want = "refused"
                    try:
                        have = proc.determine_processor_amount(oa, ob, op.spec["x"], cid)
                    except ValueError:
                        have = "refused"
                    if have != want:
                        bad("direct", "%s: amount %s instead of %s", op, have, want)
                    want = op.spec["x"] or min(self.cap(a, cid), self.cap(b, cid))
                    have = proc.determine_reservation_amount(oa, ob, op.spec["x"], cid)
                    if have != want:
                        bad("direct", "%s: reservation %s instead of %s", op, have, want)
        elif what == "state":
            st = oa.get_state()
            g = st.get("geometry")
            if st.get("node", "none") != self.sc[a].get("node", "none"):
                bad("direct", "%s: state of %s says node %s", op, a, st.get("node"))
            if (g.x, g.y) != self.xy(a):
                bad("direct", "%s: state of %s says %s, it is at %s", op, a, g, self.xy(a))
            if "cont" in self.sc[a]:
                want = {c: op.level[a, c] for c in self.sc[a]["cont"]}
                have = st["container level"]
                if (have if isinstance(have, dict) else {"default": have}) != want:
                    bad("direct", "%s: state of %s says %s instead of %s", op, a, have, want)
        elif what == "list" and "cont" in self.sc[a]:
            c = oa.container
            have = {i: (c.get_capacity(i), c.get_level(i)) for i in c.container_list}
            want = {i: (v[0], op.level[a, i]) for i, v in self.sc[a]["cont"].items()}
            if have != want or c.get_level("nothing") != 0 or c.get_capacity("nothing") != 0:
                bad("direct", "%s: contents of %s are %s instead of %s", op, a, have, want)

    def speed(self, name, op, eo=None):
        o = self.sc[name]
        v = o["v"][0]
        if o["kind"] in ("vessel", "mvessel"):
            level = sum(op.level[name, c] for c in o["cont"])
            v = speed_fn(o["v"])(level / sum(k[0] for k in o["cont"].values()))
        if eo is None:
            eo = self.orders.get(name, o.get("eo", 1))
        return v * eo

    # -- judgement -------------------------------------------------------
    def go(self):
        self.out.stats["counts"] = {}
        self.orders = {}
        real = self.perform

        def perform(op, s):
            # a move with an engine order sets the order from then on
            if op.spec["op"] == "move" and "eo" in op.spec:
                self.orders[s["own"]] = op.spec["eo"]
            if op.spec["op"] == "move":
                op.want = op.spec.get(
                    "dur",
                    geodesic(self.place(s["own"]), self.place(op.spec["to"])) / self.speed(s["own"], op),
                )
            return real(op, s)

        self.perform = perform
        self.env.run(until=self.t0 + HORIZON)
        self.check()

    def settled(self, obj, cid, a, b):
        """Levels at the end of each instant in [a, b)."""
        h = self.hist[obj, cid]
        out = []
        for j, rec in enumerate(h):
            nxt = h[j + 1][1] if j + 1 < len(h) else INF
            if nxt > rec[1] and nxt > a and rec[1] < b and nxt > rec[1]:
                if max(rec[1], a) < b:
                    out.append(rec[2])
        return out

    def during(self, obj, cid, t):
        """Levels seen in the instant t, the one it began with included."""
        h = self.hist[obj, cid]
        out = []
        for j, rec in enumerate(h):
            if rec[1] > t:
                break
            if rec[1] == t or j + 1 == len(h) or h[j + 1][1] >= t:
                out.append(rec[2])
        return out

    def check(self):
        bad = self.out.bad
        now = self.env.now
        logs = {n: [] for n in self.objs}  # entries every object must have
        res = {key: h[0][2] for key, h in self.hist.items()}
        places = {n: [h[0][1]] for n, h in self.places.items()}
        arrive = {n: [] for n in self.places}
        for op in self.ops:
            spec, kind = op.spec, op.spec["op"]
            if op.error is not None:
                bad("direct", "%s: %s: %s", op, type(op.error).__name__, str(op.error)[:100])
                continue
            want = []
            if kind in ("wait", "put", "get", "log", "ask", "misuse"):
                dt = spec["dt"] if kind == "wait" else 0
                if op.end is None or not near(op.end, op.t + dt, 1e-9):
                    bad("direct", "%s took from %s to %s", op, op.t, op.end)
            if kind in ("put", "get") and op.x:
                want = [(spec["obj"], spec["cid"], op.x if kind == "put" else -op.x)]
                if len(op.moves) == 1 and op.moves[0][1] != op.t:
                    bad("direct", "%s at %s instead of %s", op, op.moves[0][1], op.t)
            if kind == "until":
                self.check_until(op)
            if kind == "log":
                logs[spec["obj"]].append((spec["state"], spec["id"], op.t, spec["label"] or {}, spec["extra"]))
            if kind == "move":
                logs[op.ship].append(("START", spec["id"], op.t, {}, None))
                if op.end is None:
                    if op.t + op.want < self.t0 + HORIZON - 1:
                        bad("direct", "%s does not arrive", op)
                else:
                    if not near(op.end, op.t + op.want, 1e-4):
                        bad("direct", "%s from %s to %s instead of %s", op, op.t, op.end, op.t + op.want)
                    logs[op.ship].append(("STOP", spec["id"], op.end, {}, None))
                    to = self.place(spec["to"])
                    if to != places[op.ship][-1]:
                        places[op.ship].append(to)
                        arrive[op.ship].append(op.end)
            if kind == "process":
                want = self.check_process(op, logs, res)
            if [m[2:5] for m in op.moves] != want:
                bad("direct", "%s changed %s instead of %s", op, [m[1:5] for m in op.moves], want)
        for n, h in self.places.items():
            if [p for _, p in h] != places[n] or [t for t, _ in h[1:]] != arrive[n]:
                bad("direct", "%s was at %s, expected %s at %s", n, h, places[n], arrive[n])
        for (obj, cid), lv in res.items():
            have = self.objs[obj].container.get_level(cid + "_reservations")
            if not near(have, lv, 1e-6):
                bad("direct", "reservations of %s/%s are %s instead of %s", obj, cid, have, lv)
        # direct puts and gets that are not reserved do not change reservations
        for n, obj in self.objs.items():
            self.check_log(n, obj, logs[n])
        done = sum(1 for op in self.ops if op.end is not None)
        self.out.nontrivial = done >= 3 and any(
            op.end is not None and op.spec["op"] in ("move", "process") for op in self.ops
        )
        self.out.stats.update(
            {"steps": self.env.step_count, "simtime": now - self.t0, "ties": self.env.tie_points,
             "calls": len(self.ops), "finished": done}
        )
        story = [(repr(op), op.t - self.t0, None if op.end is None else op.end - self.t0) for op in self.ops]
        self.out.shape = sha([s[0] for s in story] + [[m[2:] for m in op.moves] for op in self.ops])[:16]
        self.out.digest = sha([story, sorted((k[0], k[1], [r[:3] for r in v]) for k, v in self.hist.items())])
        self.out.trace = ["%s: %s to %s, %s" % (s + ([m[1:5] for m in op.moves],)) for s, op in zip(story, self.ops)]
        self.out.ties = list(self.env.tie_log)

    def check_until(self, op):
        bad, spec = self.out.bad, op.spec
        obj, cid, rel, level = spec["obj"], spec["cid"], spec["rel"], spec["level"]
        if rel == "full":
            rel, level = "ge", self.cap(obj, cid)
        if rel == "empty":
            rel, level = "le", 0
        test = lambda lv: OPS[rel](lv, level)  # noqa: E731
        until = op.end if op.end is not None else INF
        if any(test(lv) for lv in self.settled(obj, cid, op.t, until)):
            bad("direct", "%s (%s %s %s) came %s, the level was there before", op, obj, rel, level, op.end)
        # within one instant, an event may still be on its way although the level has gone again
        if op.end is not None and not any(test(lv) for lv in self.during(obj, cid, op.end)):
            bad("direct", "%s (%s %s %s) came %s, the level was not there", op, obj, rel, level, op.end)

    def duration(self, op):
        spec = op.spec
        if spec["fn"] == "fixed":
            return spec["dur"]
        o = self.sc[spec["proc"]]
        load = spec["fn"] == "loading"
        rate = rate_fn(o["lr" if load else "ur"])
        x, cid = spec["x"], spec["cid"]
        man = o.get("lm" if load else "um", 0) * 60
        if not callable(rate):
            return x / rate + man
        if load:
            lv = op.level[spec["dst"], cid]
            return rate(lv, lv + x) + man
        lv = op.level[spec["org"], cid]
        return rate(lv, lv - x) + man

    def check_process(self, op, logs, res):
        """Take as soon as it is there, work as long as it takes, put as soon as it fits."""
        bad, spec = self.out.bad, op.spec
        org, dst, cid, x = spec["org"], spec["dst"], spec["cid"], spec["x"]
        dur = self.duration(op)
        objs = {spec["proc"], org, dst}
        for n in objs:
            logs[n].append(("START", spec["id"], op.t, {}, None))
        res[dst, cid] += spec["res"]
        res[org, cid] -= spec["res"]
        want = [(org, cid, -x), (dst, cid, x)]
        moves = [m for m in op.moves]
        get = moves[0] if moves else None
        put = moves[1] if len(moves) > 1 else None
        gone = get[1] if get else INF
        if any(lv >= x for lv in self.settled(org, cid, op.t, gone)):
            bad("direct", "%s took the content at %s, it was there before", op, gone)
        if get is None:
            return []
        if get[5] < 0:
            bad("direct", "%s took more than there was: %s", op, get)
        # the correction of the reservation: what is taken is what was reserved
        res[org, cid] += spec["res"] - x
        ready = gone + dur
        end = put[1] if put else INF
        if any(self.cap(dst, cid) - lv >= x for lv in self.settled(dst, cid, ready, end)) and ready < self.t0 + HORIZON:
            bad("direct", "%s put the content at %s, there was room before", op, end)
        self.waited(op, logs, org, op.t, gone)
        if put is None:
            if op.end is not None:
                bad("direct", "%s ended without bringing its content", op)
            return want[:1]
        if end < ready - 1e-9:
            bad("direct", "%s took from %s to %s instead of %s s", op, gone, end, dur)
        if put[5] > self.cap(dst, cid):
            bad("direct", "%s put more than fits: %s", op, put)
        if not near(op.end if op.end is not None else INF, end, 1e-9):
            bad("direct", "%s ended at %s, its content was there at %s", op, op.end, end)
        res[dst, cid] -= spec["res"] - x
        self.waited(op, logs, dst, ready, end)
        for n in objs:
            logs[n].append(("STOP", spec["id"], end, {}, None))
        return want

    def waited(self, op, logs, obj, since, until):
        if until > since + 1e-9:
            label = {"type": "subprocess", "ref": "waiting %s content" % obj}
            logs[op.spec["proc"]].append(("WAIT_START", op.spec["id"], since, label, None))
            logs[op.spec["proc"]].append(("WAIT_STOP", op.spec["id"], until, label, None))

    def check_log(self, n, obj, want):
        bad = self.out.bad
        have = []
        for e in obj.logbook:
            t = (e["Timestamp"] - EPOCH).total_seconds()
            have.append((e["ActivityState"], e["ActivityID"], t, e["ActivityLabel"], e["ObjectState"]))
        rest = list(have)
        for state, act, t, label, extra in want:
            for h in rest:
                if h[:2] == (state, act) and h[3] == label and near(h[2], t, 1e-5):
                    rest.remove(h)
                    if extra and any(h[4].get(k) != v for k, v in extra.items()):
                        bad("direct", "the log of %s lost the additional state of %s", n, h)
                    break
            else:
                bad("direct", "the log of %s misses %s", n, (state, act, t, label))
                return
        if rest:
            bad("direct", "the log of %s has an unexplained entry %s", n, rest[0])
        for e in have:
            state = e[4]
            g = state.get("geometry")
            if n in self.places and e[0] in ("START", "STOP"):
                seen = [p for j, (t, p) in enumerate(self.places[n]) if t <= e[2] + 1e-5 and (
                    j + 1 == len(self.places[n]) or self.places[n][j + 1][0] >= e[2] - 1e-5)]
                if (g.x, g.y) not in seen:
                    bad("direct", "the log of %s says it was at %s, it was at %s", n, g, seen)
            if "cont" in self.sc[n] and e[0] in ("START", "STOP"):
                lv = state["container level"]
                lv = lv if isinstance(lv, dict) else {"default": lv}
                for cid in self.sc[n]["cont"]:
                    h = self.hist[n, cid]
                    seen = [r[2] for j, r in enumerate(h) if r[1] <= e[2] + 1e-5 and (
                        j + 1 == len(h) or h[j + 1][1] >= e[2] - 1e-5)]
                    if lv.get(cid) not in seen:
                        bad("direct", "the log of %s says it held %s, it held %s", n, lv, seen)
        order = [e[2] for e in have if e[0] != "WAIT_START"]
        if order != sorted(order):
            bad("direct", "the log of %s is not in the order of time", n)


@define
class C28(Check):
    """Core objects keep their promises when the user's own processes drive them."""

    pid, codes = "C28", {"direct", "crash", "hang"}
    kind = "direct"
    quick = 40000
    thorough = 600000
    real = [
        "openclsim.core (containers, movables, processors, events container, logs, locations, identifiers)",
        "simpy kernel (step loop, stores, events)",
    ]
    stub = [
        "simpy's choice among timers of one instant: replaced by the seeded scheduler",
        "object hashes: seeded",
    ]
    rule = (
        "a case is a set of sites, ships and cranes and one to six user processes with scripts of "
        "moves, transfers, direct puts and gets, waits for levels, log entries, questions and "
        "misuses; non-trivial = three or more calls returned, one of them a move or transfer"
    )
    measure = "SHA-1 of all calls in the order in which they were made, with the content they moved"
    assumptions = ["one process moves each ship; amounts are multiples of 1/2; direct gets and puts respect the limits"]

    def case(self, rng, i):
        return {"direct": direct_case(rng)}

    def evaluate(self, case):
        out = Outcome()
        try:
            with cpu_guard(20):
                Direct(case["direct"], out).go()
        except Hang as e:
            out.bad("hang", str(e))
        except HarnessError:
            raise
        except Exception as e:  # noqa: BLE001
            if not in_repo(e):
                raise
            out.bad("crash", "%s: %s", type(e).__name__, str(e)[:200])
        return out

    def shrinks(self, case):
        c = case["direct"]
        for j in range(len(c["scripts"])):
            if len(c["scripts"]) > 1:
                yield {"direct": dict(c, scripts=c["scripts"][:j] + c["scripts"][j + 1:])}
        for j, s in enumerate(c["scripts"]):
            for k in range(len(s["ops"])):
                if s["ops"][k]["op"] == "move" and k + 1 < len(s["ops"]):
                    continue  # what follows depends on the place
                new = copy.deepcopy(c)
                del new["scripts"][j]["ops"][k]
                yield {"direct": new}
        used = set()
        for s in c["scripts"]:
            used.add(s["own"])
            for op in s["ops"]:
                used.update(v for v in op.values() if isinstance(v, str))
        for n in list(c["objs"]):
            if n not in used:
                new = copy.deepcopy(c)
                del new["objs"][n]
                yield {"direct": new}
        if c["sched"]["mode"] != "fifo":
            yield {"direct": dict(c, sched={"mode": "fifo", "seed": 0})}
        if c["t0"]:
            yield {"direct": dict(c, t0=0)}
