"""Build real OpenCLSim objects and activities from a JSON scenario."""

import random
import zlib
import uuid as uuid_module

import numpy as np
import pandas as pd
import shapely.geometry as sg

import openclsim.core as core
import openclsim.model as model
import openclsim.plugins as plugins
from openclsim.core.movable import Routable
from openclsim.plugins.weather import WeatherPluginActivity

from .env import SimEnv, cp_env_class

# fixed table of locations, a few hundred metres to tens of kilometres apart
POINTS = [
    sg.Point(4.1805, 52.1866),
    sg.Point(4.2522, 52.1142),
    sg.Point(4.0, 52.0),
    sg.Point(3.9, 52.3),
    sg.Point(4.5, 51.9),
    sg.Point(4.1905, 52.1866),
]


class InjectedFault(Exception):
    """An exception that only the simulator raises."""


class Seeded:
    """Put the hash of an object, and with it the order of sets, under the seed's control.

    Also reports what the object really looked like when a log entry was made.
    """

    _h = 0
    _world = None

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def log_entry_v1(self, *args, **kwargs):
        before = len(self.logbook)
        actual = actual_state(self)
        result = super().log_entry_v1(*args, **kwargs)
        if self._world is not None and len(self.logbook) > before:
            self._world.rec.logged(self, before, actual)
        return result


def actual_state(obj):
    state = {}
    cont = getattr(obj, "container", None)
    if cont is not None:
        state["levels"] = {c: cont.get_level(c) for c in cont.container_list}
    geom = getattr(obj, "geometry", None)
    if geom is not None:
        state["geom"] = (geom.x, geom.y)
    return state


_classes = {}


def cls(name, *bases):
    key = (name,) + bases
    if key not in _classes:
        _classes[key] = type(name, (Seeded,) + bases, {})
    return _classes[key]


def object_class(kind):
    c = core
    base = {
        "site": (c.Identifiable, c.Log, c.Locatable, c.HasContainer, c.HasResource),
        "msite": (
            c.Identifiable,
            c.Log,
            c.Locatable,
            c.HasMultiContainer,
            c.HasResource,
        ),
        "vessel": (
            c.ContainerDependentMovable,
            c.Processor,
            c.HasResource,
            c.LoadingFunction,
            c.UnloadingFunction,
            c.Identifiable,
            c.Log,
        ),
        "mvessel": (
            c.MultiContainerDependentMovable,
            c.Processor,
            c.HasResource,
            c.LoadingFunction,
            c.UnloadingFunction,
            c.Identifiable,
            c.Log,
        ),
        "barge": (
            c.Movable,
            c.HasContainer,
            c.Processor,
            c.HasResource,
            c.LoadingFunction,
            c.UnloadingFunction,
            c.Identifiable,
            c.Log,
        ),
        "crane": (
            c.Processor,
            c.HasResource,
            c.LoadingFunction,
            c.UnloadingFunction,
            c.Identifiable,
            c.Log,
            c.Locatable,
        ),
        "mover": (c.Movable, c.HasResource, c.Identifiable, c.Log),
        "router": (Routable, c.HasResource, c.Identifiable, c.Log),
        "log": (c.Identifiable, c.Log),
    }[kind]
    return cls("Sim" + kind.capitalize(), *base)


ACT = {
    "basic": model.BasicActivity,
    "move": model.MoveActivity,
    "shift": model.ShiftAmountActivity,
    "seq": model.SequentialActivity,
    "par": model.ParallelActivity,
    "while": model.WhileActivity,
    "repeat": model.RepeatActivity,
}


def rate_fn(spec):
    """A rate is a number or {"a":, "b":}: the time is the integral of a + b*(level + 3)."""
    if not isinstance(spec, dict):
        return spec
    a, b = spec["a"], spec["b"]
    f, g = spec.get("f", 1), spec.get("g", 1)  # units of time and of content

    def fn(level_from, level_to):
        level_from, level_to = level_from / g, level_to / g
        return f * abs(
            a * (level_to - level_from)
            + b * ((level_to + 3) ** 2 - (level_from + 3) ** 2) / 2
        )

    return fn


def speed_fn(spec):
    empty, full = spec
    return lambda x: empty + (full - empty) * x


class StallPlugin(model.AbstractPluginClass):
    """A fault: the activity stalls in its plugin hooks."""

    def __init__(self, world, spec, node):
        super().__init__()
        self.world, self.spec, self.node = world, spec, node

    def _stall(self, which, env, activity_log, activity):
        self.world.rec.plugin_call(self.node["n"], which, self.spec)
        waiting = self.spec.get(which, 0)
        if waiting:
            return activity.delay_processing(
                env,
                {"type": "plugin", "ref": self.spec["ref"]},
                activity_log,
                waiting,
            )
        return {}

    def pre_process(self, env, activity_log, activity, *args, **kwargs):
        return self._stall("pre", env, activity_log, activity)

    def post_process(self, env, activity_log, activity, *args, **kwargs):
        self.world.rec.plugin_args(self.node["n"], self.spec, args, kwargs)
        return self._stall("post", env, activity_log, activity)


class RaisePlugin(StallPlugin):
    """A fault: the hook raises in the k-th execution of the activity."""

    def __init__(self, *args):
        super().__init__(*args)
        self.count = 0

    def _maybe(self, which):
        self.world.rec.plugin_call(self.node["n"], which, self.spec)
        if which == self.spec["where"]:
            self.count += 1
            if self.count == self.spec["k"]:
                self.world.raised.append(self.node["n"])
                self.world.fired("raise")
                exc = {
                    "fault": InjectedFault,
                    "value": ValueError,
                    "key": KeyError,
                    "index": IndexError,
                    "assert": AssertionError,
                    "attr": AttributeError,
                    "type": TypeError,
                    "zero": ZeroDivisionError,
                    "runtime": RuntimeError,
                    "os": OSError,
                    "stop": StopIteration,
                }[self.spec.get("exc", "fault")]
                raise exc("injected-%s" % self.node["n"])
        return {}

    def pre_process(self, *args, **kwargs):
        return self._maybe("pre")

    def post_process(self, *args, **kwargs):
        return self._maybe("post")


def weather_frame(spec, t0):
    ts, val = [t0 + t for t in spec["ts"]], spec["val"]
    how = spec.get("cols")
    other = [(x * 7) % 5 for x in range(len(ts))]
    if how == "other":
        return pd.DataFrame({"ts": ts, "Hs": val, "Tp": other, "wind": other[::-1]})
    if how == "before":
        return pd.DataFrame({"Tp": other, "Hs": val, "ts": ts})
    if how == "index":
        return pd.DataFrame({"ts": ts, "Hs": val}, index=[100 + 3 * x for x in range(len(ts))])
    if how == "named":
        return pd.DataFrame({"ts": ts, "Hs [m]": val, "Hs": other})
    return pd.DataFrame({"ts": ts, "Hs": val})


def weather_criterion(spec):
    kwargs = {"max": "maximum", "min": "minimum"}
    limit = {kwargs[k]: spec[k] for k in ("max", "min") if k in spec}
    return plugins.WeatherCriterion(
        name="sim",
        condition={"named": "Hs [m]", "missing": "Hm0"}.get(spec.get("cols"), "Hs"),
        window_length=spec["wl"],
        window_delay=spec.get("wd", 0),
        **limit,
    )


BAD = (
    "type", "str", "unknown", "state", "notype", "empty", "nostate", "noname", "unknownid", "number",
    "none", "tuple", "class", "notime", "badtime", "andnumber", "ornone", "noconcept", "nocontainer",
    "cstate", "cnostate", "operator", "done", "nolevelge", "nolevelgt", "nolevelle", "nolevellt",
    "nonelevelge", "nonelevelle", "cstate", "operator", "nolevelge", "nolevelle",
)


def walk(nodes):
    for node in nodes:
        yield node
        yield from walk(node.get("subs", ()))


SINGLE_PARTS = (" sailing empty", " loading", " sailing filled", " unloading")


def expand_single(node):
    """The reference expansion of a single run process into the tree it stands for."""
    name, org, dst, ves = node["n"], node["org"], node["dst"], node["mover"]
    loader, unloader = node.get("loader", ves), node.get("unloader", ves)
    cond = node.get("cond")
    if not cond:
        cond = [
            {
                "or": [
                    {"c": [org, "empty", None, "default"]},
                    {"c": [dst, "full", None, "default"]},
                ]
            }
        ]
    grp = node.get("grp") or "__single_" + name
    subs = [
        {"t": "move", "n": name + " sailing empty", "mover": ves, "dest": org},
        {
            "t": "shift",
            "n": name + " loading",
            "proc": loader,
            "org": org,
            "dst": ves,
            "phase": "loading",
        },
        {"t": "move", "n": name + " sailing filled", "mover": ves, "dest": dst},
        {
            "t": "shift",
            "n": name + " unloading",
            "proc": unloader,
            "org": ves,
            "dst": dst,
            "phase": "unloading",
        },
    ]
    for s in subs:
        s["grp"] = grp
    return {
        "t": "while",
        "n": name,
        "cond": cond,
        "se": node.get("se"),
        "subs": subs,
        "single": True,
    }


class World:
    """One simulated OpenCLSim world: environment, objects, activities, actors."""

    def __init__(self, sc, recorder=None, tag=0):
        self.sc = sc
        self.t0 = sc.get("t0", 0)
        self.tag = tag
        self.counts = {}
        self.raised = []
        self.groups = {}
        self.objs = {}
        self.acts = {}
        self.nodes = {}
        self.parent = {}
        self.top = []
        self.batches = []  # which call of register_processes each of them is part of
        self.events = {}
        self.subs = []  # subscribers on container events
        self.registry = {}
        self.called = {}  # label of an activity -> its name, where it is not the label
        self.holds = []
        self.fire_times = {}
        env_class = cp_env_class() if sc.get("env") == "cp" else SimEnv
        self.env = env_class(initial_time=self.t0)
        self.env.set_schedule(sc.get("sched", {}))
        self.env.step_cap = sc.get("cap", 20000)
        self.rng = random.Random("hash/%s/%s" % (sc.get("hash", 0), tag))
        self.uuid_rng = random.Random("uuid/%s" % (sc.get("ids", 0),))
        self.rec = recorder
        if recorder is not None:
            recorder.world = self
        real_uuid4 = uuid_module.uuid4
        uuid_module.uuid4 = self._uuid4
        try:
            self._build()
        finally:
            uuid_module.uuid4 = real_uuid4
        if recorder is not None:
            recorder.attach()

    def _uuid4(self):
        return uuid_module.UUID(int=self.uuid_rng.getrandbits(128), version=4)

    def fired(self, kind):
        self.counts[kind] = self.counts.get(kind, 0) + 1

    def num(self, x):
        """Numbers often come out of tables."""
        if not self.sc.get("numpy") or type(x) not in (int, float):
            return x
        return np.int64(x) if type(x) is int else np.float64(x)

    # -- objects ---------------------------------------------------------
    def _seed(self, thing):
        thing._h = self.rng.getrandbits(30) if self.sc.get("hash") else 0
        thing._world = self if self.rec is not None else None
        return thing

    def _ident(self, name):
        if self.sc.get("ids"):
            return {"name": name}  # the id is a (seeded) uuid
        return {"name": name, "id": "id-" + name}

    def _build_object(self, name, o):
        kind = o["kind"]
        kw = dict(env=self.env, **self._ident(name))
        if kind == "log":
            return object_class(kind)(**kw)
        kw["geometry"] = POINTS[o.get("pos", 0)]
        # what is the default is left out
        if o.get("slots", 1) != 1:
            kw["nr_resources"] = o["slots"]
        if kind in ("site", "vessel", "barge"):
            cap, level = o["cont"]["default"]
            kw["capacity"] = self.num(cap)
            if level:
                kw["level"] = self.num(level)
        if kind in ("msite", "mvessel"):
            kw["initials"] = [
                {"id": c, "capacity": self.num(v[0]), "level": self.num(v[1])} for c, v in o["cont"].items()
            ]
            kw["store_capacity"] = o.get("store", len(o["cont"]))
        if kind in ("vessel", "mvessel"):
            kw["compute_v"] = speed_fn(o.get("v", [10, 10]))
            if "eo" in o:
                kw["engine_order"] = o["eo"]
        if kind in ("barge", "mover", "router"):
            kw["v"] = self.num(o.get("v", [10, 10])[0])
        if kind in ("vessel", "mvessel", "barge", "crane"):
            kw["loading_rate"] = self.num(rate_fn(o.get("lr", 1)))
            kw["unloading_rate"] = self.num(rate_fn(o.get("ur", 1)))
            if "lm" in o:
                kw["load_manoeuvring"] = self.num(o["lm"])
            if "um" in o:
                kw["unload_manoeuvring"] = self.num(o["um"])
        return object_class(kind)(**kw)

    # -- expressions -----------------------------------------------------
    def expr(self, e):
        if e is None:
            return None
        if isinstance(e, list):
            return [self.expr(x) for x in e]
        if "and" in e:
            return {"and": [self.expr(x) for x in e["and"]]}
        if "or" in e:
            return {"or": [self.expr(x) for x in e["or"]]}
        if "time" in e:
            return {"type": "time", "start_time": self.num(self.t0 + e["time"])}
        if "c" in e:
            obj, op, level, cid = e["c"]
            out = {"type": "container", "concept": self.objs[obj], "state": op}
            if level is not None:
                out["level"] = self.num(level)
            if cid != "default":
                out["id_"] = cid
            return out
        if "act" in e:
            return {"type": "activity", "state": "done", "name": self.real(e["act"])}
        if "actid" in e:
            if e["actid"] not in self.ids or self.sc.get("ids"):  # its id is generated
                return {"type": "activity", "state": "done", "name": self.real(e["actid"])}
            out = {
                "type": "activity",
                "state": "done",
                "ID": self.ids.get(e["actid"], e["actid"]),
            }
            if zlib.crc32(e["actid"].encode()) % 4 == 0:
                out["name"] = self.real(e["actid"])  # the id decides
            return out
        if "ev" in e:
            return self.event(e["ev"])
        if "bad" in e:
            return self.nonsense(e)
        raise KeyError(e)

    def nonsense(self, e):
        """Expressions that mean nothing."""
        conts = [o for o in self.objs.values() if hasattr(o, "container")]
        bare = [o for o in self.objs.values() if not hasattr(o, "container")]
        obj = conts[0] if conts else None
        some = next(iter(self.called), None) or next(iter(self.ids), "none")
        forms = {
            "type": {"type": "nonsense"},
            "notype": {"state": "done", "name": some},
            "empty": {},
            "state": {"type": "activity", "state": "busy", "name": some},
            "nostate": {"type": "activity", "name": some},
            "noname": {"type": "activity", "state": "done"},
            "unknown": {"type": "activity", "state": "done", "name": "no-such"},
            "unknownid": {"type": "activity", "state": "done", "ID": "no-such"},
            "str": "not an expression",
            "number": 5,
            "none": [None],
            "tuple": ({"type": "time", "start_time": self.t0},),
            "class": object(),
            "notime": {"type": "time"},
            "badtime": {"type": "time", "start_time": "soon"},
            "andnumber": {"and": 5},
            "ornone": {"or": None},
            "noconcept": {"type": "container", "state": "full"},
        }
        if bare:
            forms["nocontainer"] = {"type": "container", "concept": bare[0], "state": "full"}
        if obj is not None:
            forms["cstate"] = {"type": "container", "concept": obj, "state": "odd"}
            forms["cnostate"] = {"type": "container", "concept": obj}
            forms["operator"] = {"type": "container", "concept": obj, "state": "eq", "level": 1}
            forms["done"] = {"type": "container", "concept": obj, "state": "done", "level": 1}
            for op in ("ge", "gt", "le", "lt"):
                forms["nolevel" + op] = {"type": "container", "concept": obj, "state": op}
                forms["nonelevel" + op] = {"type": "container", "concept": obj, "state": op, "level": None}
        kind = e["bad"]
        return forms[kind] if kind in forms else forms[BAD[len(kind) % 3]]

    def real(self, label):
        """The name of an activity; activities registered apart may share one."""
        return self.called.get(label, label)

    def event(self, name):
        if name not in self.events:
            self.events[name] = self.env.event()
        return self.events[name]

    # -- activities ------------------------------------------------------
    def _group(self, node):
        key = node.get("grp") or "__own_" + node["n"]
        if key not in self.groups:
            self.groups[key] = {}
        return key, self.groups[key]

    def _build_act(self, node, parent=None):
        self.nodes[node["n"]] = node
        self.parent[node["n"]] = parent
        if node["t"] == "single":
            return self._build_single(node, parent)
        kw = dict(env=self.env, registry=self.registry)
        kw.update(name=self.real(node["n"]))
        if not self.sc.get("ids"):
            kw["id"] = "id-" + node["n"]
        bases = [ACT[node["t"]]]
        if node.get("se") is not None:
            kw["start_event"] = self.expr(node["se"])
        t = node["t"]
        if t in ("move", "shift"):
            key, dic = self._group(node)
            node["_grp"] = key
            if node.get("grp"):
                kw["requested_resources"] = dic
            if "keep" in node:
                keep = [self.objs[k] for k in node["keep"]]
                if len(keep) == 1 and zlib.crc32(node["n"].encode()) % 3 == 0:
                    keep = keep[0]  # one object, without a list around it
                kw["keep_resources"] = keep
        if t == "basic":
            kw["duration"] = self.num(node["dur"])
            if node.get("alog"):
                kw["additional_logs"] = [self.objs[k] for k in node["alog"]]
        elif t == "move":
            kw.update(mover=self.objs[node["mover"]], destination=self.objs[node["dest"]])
            if node.get("dur") is not None:
                kw["duration"] = self.num(node["dur"])
            if "eo" in node:
                kw["engine_order"] = node["eo"]
        elif t == "shift":
            kw.update(
                processor=self.objs[node["proc"]],
                origin=self.objs[node["org"]],
                destination=self.objs[node["dst"]],
            )
            if node.get("amt") is not None:
                kw["amount"] = self.num(node["amt"])
            if node.get("dur") is not None:
                kw["duration"] = self.num(node["dur"])
            if node.get("phase"):
                kw["phase"] = node["phase"]
            if node.get("cid", "default") != "default":
                kw["id_"] = node["cid"]
        else:
            kw["sub_processes"] = [
                self._build_act(s, node["n"]) for s in node["subs"]
            ]
            if t == "while":
                kw["condition_event"] = self.expr(node["cond"])
            elif t == "repeat":
                kw["repetitions"] = self.num(node["k"])
        later = []
        for spec in node.get("plug", ()):
            if spec["p"] == "delay" and spec.get("via") == "mixin":
                bases.insert(0, plugins.HasDelayPlugin)
                kw["delay_percentage"] = spec["pct"]
            elif spec["p"] == "weather" and spec.get("via") == "mixin":
                bases.insert(0, plugins.HasWeatherPluginActivity)
                kw["metocean_criteria"] = weather_criterion(spec)
                kw["metocean_df"] = weather_frame(spec, self.t0)
            else:
                later.append(spec)
        odd = zlib.crc32(("odd" + node["n"]).encode()) % 12
        if odd == 0 and len(bases) == 1:
            # plugins that are there, but not used
            bases[:0] = [plugins.HasDelayPlugin, plugins.HasWeatherPluginActivity]
            half = zlib.crc32(("half" + node["n"]).encode()) % 3
            spec = {"max": 2.0, "wl": 1, "ts": [0, 5, 10], "val": [3.0, 3.0, 3.0]}
            kw.update(
                metocean_criteria=weather_criterion(spec) if half == 1 else None,
                metocean_df=weather_frame(spec, self.t0) if half == 2 else None,
            )
        elif odd == 1 and len(bases) == 1:
            bases.insert(0, plugins.HasDelayPlugin)
        act = cls("Sim" + "".join(b.__name__ for b in bases), *bases)(**kw)
        self._seed(act)
        self.acts[node["n"]] = act
        if odd == 2:
            act.register_plugin(plugins.DelayPlugin())
        for spec in later:
            if spec["p"] == "delay":
                plug = plugins.DelayPlugin(delay_percentage=spec["pct"])
            elif spec["p"] == "weather":
                plug = WeatherPluginActivity(
                    weather_criteria=weather_criterion(spec),
                    metocean_df=weather_frame(spec, self.t0),
                )
            elif spec["p"] == "stall":
                plug = StallPlugin(self, spec, node)
            elif spec["p"] == "raise":
                plug = RaisePlugin(self, spec, node)
            if "prio" in spec:
                act.register_plugin(plug, priority=spec["prio"])
            else:
                act.register_plugin(plug)
        return act

    def _build_single(self, node, parent):
        tree = expand_single(node)
        node["_tree"] = tree
        key, dic = self._group(tree["subs"][0])
        kw = {}
        if node.get("grp") or zlib.crc32(node["n"].encode()) % 2:  # else a dict of its own
            kw["requested_resources"] = dic
        if node.get("cond"):
            kw["stop_event"] = self.expr(node["cond"])
        if node.get("se") is not None:
            kw["start_event"] = self.expr(node["se"])
        subs, while_act = model.single_run_process(
            env=self.env,
            registry=self.registry,
            name=self.real(node["n"]),
            origin=self.objs[node["org"]],
            destination=self.objs[node["dst"]],
            mover=self.objs[node["mover"]],
            loader=self.objs[node.get("loader", node["mover"])],
            unloader=self.objs[node.get("unloader", node["mover"])],
            **kw,
        )
        self.nodes[node["n"]] = tree
        self.acts[node["n"]] = while_act
        for sub_node, sub in zip(tree["subs"], subs):
            sub_node["_grp"] = key
            self.nodes[sub_node["n"]] = sub_node
            self.parent[sub_node["n"]] = node["n"]
            self.acts[sub_node["n"]] = sub
        return while_act

    # -- actors ----------------------------------------------------------
    def _actor(self, spec):
        env = self.env
        k = spec["k"]
        yield env.timeout(spec["at"])
        if k == "hold":
            res = self.objs[spec["obj"]].resource
            with res.request() as req:
                yield req
                self.holds.append(req)
                self.fired("breakdown")
                yield env.timeout(spec["dur"])
        elif k in ("put", "get"):
            cont = self.objs[spec["obj"]].container
            cid, amt = spec.get("cid", "default"), spec["amt"]
            if k == "put":
                amt = min(amt, cont.get_capacity(cid) - cont.get_level(cid))
            else:
                amt = min(amt, cont.get_level(cid))
            if amt > 0:
                self.rec and self.rec.exogenous(
                    spec["obj"], cid, amt if k == "put" else -amt, spec.get("bare", False)
                )
                getattr(cont, k)(amt, cid)
                if not spec.get("bare"):
                    getattr(cont, k)(amt, cid + "_reservations")
                self.fired("content_" + k)
        elif k == "sub":
            cont = self.objs[spec["obj"]].container
            cid, op = spec.get("cid", "default"), spec["op"]
            rec = {"spec": spec, "asked": None, "woken": None}
            self.subs.append(rec)
            rec["asked"] = self.rec.stamp() if self.rec else (0, env.now)
            if op == "full":
                event = cont.get_full_event(id_=cid)
            elif op == "empty":
                event = cont.get_empty_event(id_=cid)
            else:
                event = cont.get_container_event(
                    level=spec["level"], operator=op, id_=cid
                )
            yield event
            rec["woken"] = self.rec.stamp() if self.rec else (0, env.now)
            self.fired("subscription")
        elif k == "reg":
            self.register(spec["b"])
            self.fired("late_registration")
        elif k == "fire":
            event = self.event(spec["ev"])
            if not event.triggered:
                event.succeed()
                self.fire_times[spec["ev"]] = env.now
                self.fired("event")

    # -- assembly --------------------------------------------------------
    def _build(self):
        sc = self.sc
        for name, o in sc["objs"].items():
            self.objs[name] = self._seed(self._build_object(name, o))
        self.ids = {n["n"]: "id-" + n["n"] for n in walk(sc["acts"]) if n["t"] != "single"}
        for n in walk(sc["acts"]):
            if "as" in n:
                self.called[n["n"]] = n["as"]
                if n["t"] == "single":
                    for part in SINGLE_PARTS:
                        self.called[n["n"] + part] = n["as"] + part
        for node in sc["acts"]:
            self.top.append(self._build_act(node))
            self.batches.append(node.get("b", 0))
        for name, act in self.acts.items():
            self.ids[name] = act.id
        self.actor_procs = {}

    def register(self, batch):
        acts = [a for a, b in zip(self.top, self.batches) if b == batch]
        if len(acts) == 1 and zlib.crc32(acts[0].name.encode()) % 3 == 0:
            acts = acts[0]  # one activity, without a list around it
        model.register_processes(acts)

    def start(self):
        """Register the activities and start the actors."""
        if self.sc.get("actors_first"):
            self._start_actors()
        real_uuid4 = uuid_module.uuid4
        uuid_module.uuid4 = self._uuid4
        try:
            late = {a["b"] for a in self.sc.get("actors", ()) if a["k"] == "reg"}
            for b in sorted(set(self.batches) - late):
                self.register(b)
        finally:
            uuid_module.uuid4 = real_uuid4
        if not self.sc.get("actors_first"):
            self._start_actors()
        if self.rec is not None:
            self.rec.observe(None)

    def _start_actors(self):
        for i, spec in enumerate(self.sc.get("actors", ())):
            proc = self.env.process(self._actor(spec))
            self.actor_procs[proc] = i
