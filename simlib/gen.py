"""Seeded scenario generator (swarm style: every run enables its own subset of features)."""

import copy

DUR = [0.25, 0.5, 1, 1, 2, 2, 2.5, 3, 4, 5, 5, 7.25, 10]
LEVELS = [0, 0.5, 1, 2, 3, 4, 5, 6, 8, 10]

DEFAULT = {
    # families and their weights
    "fleet": 3,
    "tree": 2,
    "mixed": 2,
    "contend": 2,
    "multi": 1,
    "squeeze": 0.5,
    "midway": 0.5,
    "rush": 0.5,
    "chain": 0.06,
    # feature probabilities
    "actors": 0.5,
    "holds": 0.4,
    "content": 0.4,
    "subs": 0.2,
    "plugins": 0.3,
    "weather": 0.3,
    "delay": 0.3,
    "stall": 0.5,
    "raise": 0.0,
    "se": 0.4,
    "keep": 0.3,
    "rates": 0.5,
    "callable": 0.2,
    "computed_move": 0.3,
    "float": 0.1,
    "zero": 0.04,
    "slots": 0.4,
    "hash": 0.7,
    "uuid": 0.2,
    "t0": 0.2,
    "pause": 0.1,
    "single": 0.25,
    "tight": 0.25,  # origins and destinations may run dry / full
    "big": 0.15,
    "alog": 0.3,
    "engine": 0.15,
    "manoeuvre": 0.15,
    "actid": 0.2,
    "late": 0.0,
    "twin": 0.0,
    "stretch": 0.12,
    "wide": 0.03,
    "alike": 0.06,
}


def unshared(x):
    """A copy in which no two places share an object."""
    if isinstance(x, dict):
        return {k: unshared(v) for k, v in x.items()}
    return [unshared(v) for v in x] if isinstance(x, list) else x


class G:
    def __init__(self, rng, prof=None):
        self.r = rng
        self.p = dict(DEFAULT)
        self.p.update(prof or {})
        # swarm: each run switches a random subset of the optional features off
        for k in (
            "actors", "plugins", "se", "keep", "callable", "computed_move", "float", "zero",
            "slots", "pause", "alog", "engine", "manoeuvre",
        ):
            if prof and k in prof and prof[k] >= 1:
                continue
            if rng.random() < 0.35:
                self.p[k] = 0
        self.floaty = self.yes("float")
        self.n = 0
        self.objs = {}
        self.acts = []
        self.actors = []
        self.evs = 0
        self.tanks = []

    def yes(self, key):
        return self.r.random() < self.p[key]

    def pick(self, *items):
        return self.r.choice(items)

    def name(self, prefix="A"):
        self.n += 1
        return "%s%d" % (prefix, self.n)

    def dur(self):
        if self.yes("zero"):
            return 0
        if self.floaty and self.r.random() < 0.5:
            return round(self.r.uniform(0.1, 9), 3)
        return self.r.choice(DUR)

    def amount(self, top):
        if self.floaty and self.r.random() < 0.6:
            return round(self.r.uniform(0.05, 1) * top, 3)
        if self.r.random() < 0.2:
            return self.pick(0.5, 0.25, 1.5)
        return self.r.randint(1, max(1, int(top)))

    # -- objects ---------------------------------------------------------
    def slots(self):
        return self.pick(2, 2, 2, 3, 3, 4, 6) if self.yes("slots") else 1

    def site(self, pos, cap, level, name=None, slots=None):
        name = name or self.name("S")
        self.objs[name] = {
            "kind": "site",
            "pos": pos,
            "slots": self.slots() if slots is None else slots,
            "cont": {"default": [cap, level]},
        }
        return name

    def rate(self):
        if self.yes("callable"):
            return {"a": self.pick(0.5, 1, 2), "b": self.pick(0, 0.25, 0.5)}
        return self.pick(0.5, 1, 1, 2, 4)

    def vessel(self, pos, cap, level=0, name=None, slots=1):
        name = name or self.name("V")
        v = self.pick(2, 5, 10)
        self.objs[name] = {
            "kind": self.pick("vessel", "vessel", "vessel", "barge"),
            "pos": pos,
            "slots": slots,
            "cont": {"default": [cap, level]},
            "v": [v, self.pick(v, v / 2, v * 2)],
            "lr": self.rate(),
            "ur": self.rate(),
        }
        if self.yes("manoeuvre"):
            self.objs[name]["lm"] = self.pick(0.5, 1)
            self.objs[name]["um"] = self.pick(0.25, 1)
        return name

    def crane(self, pos):
        name = self.name("K")
        self.objs[name] = {
            "kind": "crane",
            "pos": pos,
            "slots": self.slots(),
            "lr": self.rate(),
            "ur": self.rate(),
        }
        return name

    def mover(self, pos):
        name = self.name("M")
        self.objs[name] = {"kind": "mover", "pos": pos, "slots": 1, "v": [self.pick(2, 5), 5]}
        return name

    def loggable(self):
        name = self.name("L")
        self.objs[name] = {"kind": "log"}
        return name

    def tank(self):
        """A container that only actors fill and drain."""
        cap = self.pick(4, 6, 8)
        level = self.r.randint(0, cap)
        name = self.site(0, cap, level, self.name("T"), slots=1)
        self.tanks.append(name)
        t = 0
        almost = 2.0**-21 if self.r.random() < 0.2 else 0  # almost full is not full
        for _ in range(self.r.randint(1, 6)):
            t += self.pick(0, 0.5, 1, 2, 3, 5)
            self.actors.append(
                {
                    "k": self.pick("put", "get"),
                    "obj": name,
                    "amt": self.pick(0.5, 1, 2, 3) - self.pick(0, almost),
                    "at": t,
                }
            )
        return name

    # -- plugins ---------------------------------------------------------
    def prio(self):
        return self.pick(-1, 0, 1, 2, 2, 3, 3, 4, 10, 20, 2.5)

    def plug(self, node, force=None):
        if force is None and not self.yes("plugins"):
            return node
        out = []
        if force == "weather" or self.yes("weather"):
            out.append(self.weather())
        if force == "delay" or self.yes("delay"):
            d = {"p": "delay", "pct": self.pick(0, 10, 25, 50, 100, 200, self.pick(0.5, 12.5, 300, 1000))}
            if self.r.random() < 0.5:
                d["via"] = "mixin"
            elif self.r.random() < 0.7:
                d["prio"] = self.prio()
            out.append(d)
        while self.yes("stall") and len(out) < 4:
            s = {"p": "stall", "ref": "stall%d" % len(out)}
            k = self.r.randint(0, 3)
            if k & 1:
                s["pre"] = self.dur() or 1
            if k & 2:
                s["post"] = self.dur() or 1
            if self.r.random() < 0.6:
                s["prio"] = self.prio()
            out.append(s)
        if self.yes("raise") or force == "raise":
            out.append(
                {
                    "p": "raise",
                    "where": self.pick("pre", "post"),
                    "k": self.pick(1, 1, 1, 2, 3),
                    "prio": self.prio(),
                    "exc": self.pick("fault", "fault", "value", "key", "index", "assert", "attr", "type"),
                }
            )
        self.r.shuffle(out)
        mixins = [s for s in out if s.get("via") == "mixin"]
        if len(mixins) == 2:
            # keep the constructor order fixed: delay first
            rest = [s for s in out if s.get("via") != "mixin"]
            mixins.sort(key=lambda s: s["p"])
            out = mixins + rest
        if out:
            node["plug"] = out
        return node

    def weather(self):
        n = self.r.randint(2, 8) if self.r.random() < 0.93 else self.r.randint(15, 60)
        step = self.pick(5, 10, 10, 20)
        start = self.pick(0, 0, 0, -step, step)
        ts = []
        t = start
        for _ in range(n):
            ts.append(t)
            t += step if self.r.random() < 0.8 else step * self.pick(0.5, 2)
        good, bad = 1.0, 3.0
        val = [self.pick(good, good, good, bad, bad, 0.5, 2.0, 2.5) for _ in range(n)]
        limit = 2.0
        spec = {"p": "weather", "ts": ts, "val": val}
        if self.r.random() < 0.6:
            spec["max"] = limit
        else:
            spec["min"] = limit
        length = self.pick(0, 1, 2.5, 4, step - 1, step, step + 1)
        spec["wl"] = length
        if self.r.random() < 0.3:
            spec["wd"] = self.pick(0.5, 1, 3)
        # make sure that some workable window exists
        from .spec import weather_start

        if weather_start(spec, 0)[1] is None and self.r.random() < 0.97:
            spec["wl"] = 1
            if weather_start(spec, 0)[1] is None:
                i = self.r.randrange(n - 1)
                spec["val"][i] = 1.0 if "max" in spec else 3.0
        if weather_start(spec, 0)[1] is None and self.r.random() < 0.97:
            spec["val"] = [1.0 if "max" in spec else 3.0] * n
        self.other_weather(spec, step)
        if self.r.random() < 0.4:
            spec["via"] = "mixin"
        elif self.r.random() < 0.7:
            spec["prio"] = self.prio()
        return spec

    def other_weather(self, spec, step):
        """The same windows from other numbers, and other windows of almost the same length."""
        r = self.r
        key = "max" if "max" in spec else "min"
        if r.random() < 0.3:
            shift = self.pick(-2.0, -2.0, -5.0, 100.0)  # a limit of 0, below 0, or far above
            spec["val"] = [v + shift for v in spec["val"]]
            spec[key] += shift
        elif r.random() < 0.3:
            # just on one side of the limit
            near = self.pick(2.0**-6, 2.0**-20, 2.0**-30)
            spec["val"] = [
                spec[key] + near * self.pick(1, 1, 3) * (1 if v > spec[key] else -1) if v != spec[key] else v
                for v in spec["val"]
            ]
        if r.random() < 0.1 and all(float(v).is_integer() for v in spec["val"]):
            spec["val"] = [int(v) for v in spec["val"]]
            spec[key] = int(spec[key])
        if spec["wl"] == step and r.random() < 0.5:
            spec["wl"] = step + self.pick(-1, 1) * self.pick(2.0**-6, 2.0**-14)
        if r.random() < 0.3:
            spec["cols"] = self.pick("other", "before", "index", "named")

    # -- expressions -----------------------------------------------------
    def leaf(self, names):
        k = self.r.random()
        if k < 0.3 or not (names or self.tanks):
            return {"time": self.pick(0, 1, 2, 3, 5, 8, 12)}
        if k < 0.4:
            return self.event_leaf()
        if k < 0.65 and names:
            n = self.r.choice(names)
            if self.yes("actid") and not self.use_uuid:
                return {"actid": n}
            return {"act": n}
        return self.cleaf()

    def event_leaf(self):
        self.evs += 1
        ev = "E%d" % self.evs
        if self.r.random() < 0.9:
            self.actors.append({"k": "fire", "ev": ev, "at": self.pick(0, 1, 2, 4, 6, 9)})
        return {"ev": ev}

    def cleaf(self, obj=None):
        if obj is None:
            pool = list(self.tanks)
            pool += [n for n, o in self.objs.items() if "cont" in o and "default" in o["cont"]]
            if not pool:
                return {"time": self.pick(0, 2, 4)}
            obj = self.r.choice(self.tanks) if self.tanks and self.r.random() < 0.7 else self.r.choice(pool)
        cap = self.objs[obj]["cont"]["default"][0]
        op = self.pick("full", "empty", "ge", "gt", "le", "lt")
        level = None
        if op not in ("full", "empty"):
            level = self.pick(0, 1, 2, cap / 2, cap - 1, cap, 0.5)
        return {"c": [obj, op, level, "default"]}

    def expr(self, names, depth=2):
        k = self.r.random()
        if depth == 0 or k < 0.5:
            return self.leaf(names)
        parts = [self.expr(names, depth - 1) for _ in range(self.r.randint(1, 3))]
        if k < 0.65:
            return parts
        return {"and": parts} if k < 0.82 else {"or": parts}

    # -- trees of activities ----------------------------------------------
    def basic(self, names):
        n = {"t": "basic", "n": self.name(), "dur": self.dur()}
        if self.yes("se"):
            n["se"] = self.expr(names)
        if self.yes("alog") and self.objs:
            k = min(len(self.objs), self.r.randint(1, 2))
            n["alog"] = self.r.sample(sorted(self.objs), k)
        names.append(n["n"])
        return self.plug(n)

    def tree(self, names, depth, leaf=None):
        leaf = leaf or self.basic
        if depth == 0 or self.r.random() < 0.3:
            return leaf(names)
        t = self.pick("seq", "seq", "par", "par", "repeat", "while")
        name = self.name(t[0].upper())
        if self.r.random() < 0.1:
            # many parts
            subs = [self.tree(names, 0, leaf) for _ in range(self.r.randint(4, 9))]
        else:
            subs = [self.tree(names, depth - 1, leaf) for _ in range(self.r.randint(1, 3))]
        node = {"t": t, "n": name, "subs": subs}
        if t == "repeat":
            node["k"] = self.pick(1, 2, 2, 3)
        if t == "while":
            inner = [x["n"] for s in subs for x in walk([s])]
            node["cond"] = self.expr(names if self.r.random() < 0.7 else inner)
            if self.r.random() < 0.7:
                # most loops end some day
                node["cond"] = {"or": [node["cond"], {"time": self.pick(5, 8, 13, 20)}]}
            fix_zero(node)
        if self.yes("se") and self.r.random() < 0.6:
            node["se"] = self.expr(names)
        names.append(name)
        return self.plug(node) if self.r.random() < 0.4 else node

    # -- transport threads -------------------------------------------------
    def thread(self, ves, org, dst, loader=None, unloader=None, trips=1, cond=None, names=None):
        """One vessel going to and fro."""
        names = names if names is not None else []
        cap = self.objs[ves]["cont"]["default"][0]
        grp = None
        keepers = ()
        if self.yes("keep"):
            grp = self.name("g")
            keepers = [ves] + ([org] if self.r.random() < 0.2 else [])
        style = self.r.random()
        amt = None if self.r.random() < 0.5 else self.amount(cap)

        def shift(name, proc, a, b, phase):
            n = {"t": "shift", "n": name, "proc": proc, "org": a, "dst": b}
            if amt is not None and (phase == "loading" or self.r.random() < 0.3):
                n["amt"] = amt
            if self.yes("rates") and self.objs[proc]["kind"] != "mover":
                n["phase"] = phase
                if self.r.random() < 0.1:
                    n["dur"] = self.pick(0, 0, self.dur())
            else:
                n["dur"] = self.dur()
            return n

        def move(name, to):
            n = {"t": "move", "n": name, "mover": ves, "dest": to}
            if not self.yes("computed_move"):
                n["dur"] = self.dur()
            if self.yes("engine"):
                n["eo"] = self.pick(0.5, 0.25, 2)
            return n

        if self.yes("single") and style < 0.5:
            # the library's own composition, its default or an explicit stop condition
            node = {"t": "single", "n": self.name("run"), "org": org, "dst": dst, "mover": ves}
            if loader:
                node["loader"] = loader
            if unloader:
                node["unloader"] = unloader
            if cond is not None:
                node["cond"] = cond
            if self.yes("se") and self.r.random() < 0.5:
                node["se"] = self.expr(names)
            if grp:
                return self.taken_over(node, grp, move, shift, names)
            return node
        base = self.name("v")
        subs = [
            move(base + "-empty", org),
            shift(base + "-load", loader or ves, org, ves, "loading"),
            move(base + "-full", dst),
            shift(base + "-unload", unloader or ves, ves, dst, "unloading"),
        ]
        if self.r.random() < 0.15:
            extra = shift(base + "-load2", loader or ves, org, ves, "loading")
            extra["amt"] = 1
            first = subs[1]
            if first.get("amt") is None or first["amt"] >= cap:
                first["amt"] = max(cap - 1, 0.5)
            subs.insert(2, extra)
        if self.r.random() < 0.2:
            subs.insert(self.r.randrange(len(subs) + 1), self.basic(names))
        for i, s in enumerate(subs):
            if s["t"] in ("move", "shift"):
                if grp:
                    s["grp"] = grp
                    last = i == len(subs) - 1
                    if not last or self.r.random() < 0.2:
                        used = {s.get("mover"), s.get("org"), s.get("dst"), s.get("proc")}
                        s["keep"] = [k for k in keepers if k in used or self.r.random() < 0.2]
                self.plug(s)
                if self.yes("se") and self.r.random() < 0.3:
                    s["se"] = self.expr(names)
            names.append(s["n"])
        if cond is not None:
            node = {"t": "while", "n": self.name("W"), "cond": cond, "subs": subs}
            fix_zero(node)
        elif trips == 1:
            node = {"t": "seq", "n": self.name("Q"), "subs": subs}
        else:
            node = {"t": "repeat", "n": self.name("R"), "k": trips, "subs": subs}
        if self.r.random() < 0.15:
            node = {"t": "repeat", "n": self.name("R"), "k": self.pick(1, 2), "subs": [node]}
        if self.yes("se"):
            node["se"] = self.expr(names)
        return node

    def taken_over(self, node, grp, move, shift, names):
        """A single run process that takes over what was kept for it."""
        r = self.r
        node["grp"] = grp
        pre = [move(self.name("to"), node["org"])]
        if r.random() < 0.5:
            pre.append(shift(self.name("top"), node.get("loader", node["mover"]), node["org"], node["mover"], "loading"))
            pre[-1]["amt"] = self.pick(0.5, 1)
        for n in pre:
            n["grp"] = grp
            names.append(n["n"])
            used = [n[k] for k in ("mover", "proc", "org", "dst") if n.get(k)]
            n["keep"] = sorted({u for u in used if u == node["mover"] or r.random() < 0.4})
        return {"t": "seq", "n": self.name("Q"), "subs": pre + [node]}

    def fleet(self):
        r = self.r
        nv = self.pick(7, 9, 12) if self.yes("wide") else r.randint(1, 4)
        tight = self.yes("tight")
        no, nd = (1, 1) if r.random() < 0.6 else (self.pick(1, 2), self.pick(1, 2))
        here = r.random() < 0.1
        caps = [self.amount(6) if self.floaty else self.pick(1, 2, 3, 4, 5) for _ in range(nv)]
        trips = [self.pick(1, 1, 2, 3) for _ in range(nv)]
        need = sum(c * t for c, t in zip(caps, trips)) * 2
        if tight:
            level = self.amount(max(need, 2))
            dcap = self.amount(max(need, 2))
        else:
            level, dcap = need + self.pick(0, 1, 5), need + self.pick(0, 1, 5)
        origins = [self.site(0, level + self.pick(0, 5), level) for _ in range(no)]
        dests = [self.site(0 if here else 1 + i, dcap, 0) for i in range(nd)]
        names = []
        if r.random() < 0.3:
            self.tank()
        threads = []
        loaders = {o: self.crane(0) for o in origins if r.random() < 0.25}
        unloaders = {d: self.crane(self.objs[d]["pos"]) for d in dests if r.random() < 0.2}
        for i in range(nv):
            ves = self.vessel(self.pick(0, 0, 1, 2), caps[i])
            org, dst = r.choice(origins), r.choice(dests)
            cond = None
            if r.random() < 0.35:
                # leave enough for everybody under way
                slack = 0 if tight and r.random() < 0.5 else sum(caps)
                a = {"c": [org, "le", slack, "default"]}
                b = {"c": [dst, "ge", dcap - slack, "default"]}
                if tight and slack == 0:
                    a, b = {"c": [org, "empty", None, "default"]}, {"c": [dst, "full", None, "default"]}
                cond = self.pick([{"or": [a, b]}], {"or": [a, b]}, {"or": [b, [a]]}, {"or": [{"or": [a]}, b]})
                if r.random() < 0.4:
                    cond = {"or": [cond, {"time": self.pick(10, 20, 40)}]}
                if self.r.random() < 0.15:
                    # a list: all of it, also when the parts are the same
                    cond = (cond if isinstance(cond, list) else [cond]) + [
                        self.pick(a, b, {"or": [a, b]}, {"time": 1})
                    ] * self.pick(1, 2, 2)
                    cond = unshared(cond)
            threads.append(
                self.thread(ves, org, dst, loaders.get(org), unloaders.get(dst), trips[i], cond, names)
            )
        return self.assemble(threads, names)

    def assemble(self, threads, names):
        if len(threads) > 1 and self.r.random() < 0.25:
            node = {"t": self.pick("par", "par", "seq"), "n": self.name("Z"), "subs": threads}
            if self.r.random() < 0.3:
                node = {"t": "repeat", "n": self.name("R"), "k": self.pick(1, 2), "subs": [node]}
            return [self.plug(node)]
        return threads

    def contend(self):
        """Plain activities that compete for few objects at one place."""
        r = self.r
        big = self.pick(4, 8, 12)
        sites = [self.site(0, big, r.randint(1, big)) for _ in range(r.randint(2, 3))]
        ves = [self.vessel(0, self.pick(2, 4, 6), r.choice([0, 1, 2]), slots=self.slots()) for _ in range(r.randint(1, 3))]
        procs = list(ves) + ([self.crane(0)] if r.random() < 0.6 else [])
        if r.random() < 0.3:
            procs.append(self.crane(0))
        names = []

        def leaf(names):
            if r.random() < 0.15:
                return self.basic(names)
            n = self.name("x")
            if r.random() < 0.2:
                node = {"t": "move", "n": n, "mover": r.choice(ves), "dest": r.choice(sites), "dur": self.dur()}
            else:
                a, b = r.sample(sites + ves, 2)
                node = {"t": "shift", "n": n, "proc": r.choice(procs), "org": a, "dst": b, "dur": self.dur()}
                if r.random() < 0.8:
                    node["amt"] = self.amount(4)
                if self.yes("rates"):
                    if r.random() < 0.9:
                        del node["dur"]
                    node["phase"] = self.pick("loading", "unloading")
            if self.yes("keep"):
                node["grp"] = "g%d" % r.randint(1, 2)
                used = sorted({node.get("mover"), node.get("org"), node.get("dst"), node.get("proc")} - {None})
                node["keep"] = [u for u in used if r.random() < 0.3]
            if self.yes("se") and r.random() < 0.5:
                node["se"] = self.expr(names)
            names.append(n)
            return self.plug(node)

        acts = []
        for _ in range(r.randint(1, 5)):
            acts.append(self.tree(names, self.pick(0, 1, 1, 2), leaf))
        self.serialise_groups(acts)
        return acts

    def squeeze(self):
        """Groups that keep resources while they retry for scarce content, space or slots."""
        r = self.r
        cap = self.pick(2, 4, 6)
        sites = [
            self.site(0, cap, r.choice([0, 0, 1, 2]), slots=self.pick(1, 1, 2))
            for _ in range(r.randint(2, 3))
        ]
        ves = [self.vessel(0, self.pick(2, 4), r.choice([0, 0, 1, 2])) for _ in range(r.randint(2, 3))]
        cranes = [self.crane(0) for _ in range(r.randint(0, 1))]
        names = []
        acts = []
        for k in range(r.randint(2, 4)):
            grp = self.name("g")
            subs = []
            for _ in range(r.randint(1, 4)):
                n = self.name("q")
                if r.random() < 0.2:
                    node = {"t": "move", "n": n, "mover": r.choice(ves), "dest": r.choice(sites), "dur": self.dur() or 1}
                    used = [node["mover"]]
                else:
                    a, b = r.sample(sites + ves, 2)
                    proc = r.choice(cranes + ves)
                    node = {"t": "shift", "n": n, "proc": proc, "org": a, "dst": b, "dur": self.dur()}
                    if r.random() < 0.85:
                        node["amt"] = self.pick(1, 1, 2, 0.5)
                    used = sorted({proc, a, b})
                node["grp"] = grp
                node["keep"] = [u for u in used if r.random() < 0.5]
                if self.yes("se") and r.random() < 0.3:
                    node["se"] = self.leaf(names)
                names.append(n)
                subs.append(self.plug(node) if r.random() < 0.3 else node)
            if r.random() < 0.7:  # the last one lets go
                subs[-1]["keep"] = []
            t = self.pick("seq", "seq", "repeat")
            node = {"t": t, "n": self.name("Q"), "subs": subs}
            if t == "repeat":
                node["k"] = 2
                fix_zero(node)
            acts.append(node)
        for _ in range(r.randint(0, 5)):  # somebody else fills and empties
            self.actors.append(
                {"k": self.pick("put", "get"), "obj": r.choice(sites), "amt": self.pick(0.5, 1, 2), "at": self.when()}
            )
        return acts

    def midway(self):
        """Transfers whose content or space goes missing once their amount has been decided."""
        r = self.r
        cap = self.pick(3, 4, 6, 10)
        org = self.site(0, cap + self.pick(0, 2), self.amount(cap), slots=self.pick(1, 2, 3))
        dst = self.site(0, self.pick(2, 3, 5, cap), self.pick(0, 0, 1), slots=self.pick(1, 2, 3))
        ves = self.vessel(0, self.pick(2, 4, 6), self.pick(0, 0, 1, 2), slots=self.pick(1, 2))
        procs = [self.crane(0) for _ in range(r.randint(1, 2))] + [ves]
        crowd = r.random() < 0.35
        if crowd:
            # everybody at the same place at the same time
            procs = procs[:1]
            for o in (org, dst, ves, procs[0]):
                self.objs[o]["slots"] = 3
        names = []
        acts = []
        for _ in range(r.randint(2, 4) if crowd else r.randint(1, 3)):
            a, b = self.pick((org, dst), (org, dst), (org, ves), (ves, dst), (dst, org))
            n = self.name("m")
            node = {"t": "shift", "n": n, "proc": r.choice(procs), "org": a, "dst": b}
            if r.random() < 0.8:
                # anything from a trifle to more than will ever fit
                node["amt"] = self.pick(0.5, 1, 2, 3, cap - 1, cap, cap + 1, 2 * cap)
            if r.random() < 0.5:
                node["dur"] = self.dur() or 3
            else:
                node["phase"] = self.pick("loading", "unloading")
                if r.random() < 0.1:
                    node["dur"] = self.pick(0, self.dur())
            if r.random() < 0.4:
                # decided first, then held up before it starts
                node["plug"] = [{"p": "stall", "ref": "stall0", "pre": self.dur() or 2}]
            elif r.random() < 0.3:
                self.plug(node)
            if crowd and r.random() < 0.5:
                node["se"] = {"time": self.pick(1, 2, 2.5, 4, 6)}
            names.append(n)
            if r.random() < 0.3:
                rest = self.name("Q")
                node = {"t": self.pick("seq", "par"), "n": rest, "subs": [node, self.basic(names)]}
            elif r.random() < 0.2:
                node = {"t": "repeat", "n": self.name("R"), "k": 2, "subs": [node]}
                fix_zero(node)
            acts.append(node)
        for _ in range(r.randint(1, 6)):
            obj, k = self.pick((org, "get"), (org, "get"), (dst, "put"), (dst, "put"), (org, "put"), (dst, "get"), (ves, "put"), (ves, "get"))
            self.actors.append({"k": k, "obj": obj, "amt": self.pick(0.5, 1, 2, 3, cap), "at": self.when()})
        if r.random() < 0.3 and not any(o["kind"] == "barge" for o in self.objs.values()):
            self.assort(acts)
        return acts

    def assort(self, acts):
        """The same with objects that have several contents."""
        r = self.r
        kinds = {"site": "msite", "vessel": "mvessel"}
        ids = ["default", "MP", "TP"][r.randint(0, 1):]
        for o in self.objs.values():
            if o["kind"] in kinds:
                o["kind"] = kinds[o["kind"]]
                cap, level = o["cont"]["default"]
                main = ids[-1]
                o["cont"] = {c: [self.pick(1, cap, 2 * cap), self.pick(0, 0.5, 1)] for c in ids if c != main}
                o["cont"][main] = [cap, level]
                for c, v in o["cont"].items():
                    v[1] = min(v)
        def meant(e):
            if isinstance(e, dict):
                if "c" in e:
                    e["c"][3] = ids[-1]
                for x in e.values():
                    meant(x)
            elif isinstance(e, list):
                for x in e:
                    meant(x)

        for n in walk(acts):
            meant(n.get("se"))
            meant(n.get("cond"))
            if n["t"] == "shift":
                n["cid"] = ids[-1] if r.random() < 0.8 else r.choice(ids)
        for a in self.actors:
            if a["k"] in ("put", "get"):
                a["cid"] = ids[-1] if r.random() < 0.8 else r.choice(ids)

    def rush(self):
        """Activities that are all set going at the same few moments and compete for few objects."""
        r = self.r
        cap = self.pick(4, 8, 10, 20)
        moments = sorted(r.sample([0, 1, 2, 4, 5, 8, 10], r.randint(1, 3)))
        sites = [self.site(0, cap, self.pick(0, 0, cap / 2, cap)) for _ in range(r.randint(1, 2))]
        there = self.site(1, cap, 0)
        movers = [self.mover(0) for _ in range(r.randint(0, 1))]
        movers += [self.vessel(0, cap, self.pick(0, 1, cap / 2), slots=self.slots()) for _ in range(r.randint(1, 2))]
        if r.random() < 0.4:
            sites.append(self.tank())
        names = []

        def when():
            k = r.random()
            o = r.choice(sites)
            if k < 0.6:
                if r.random() < 0.25:
                    return {"c": [o, self.pick("full", "empty"), None, "default"]}
                return {"c": [o, self.pick("ge", "gt", "le", "lt"), self.pick(*range(cap + 1)), "default"]}
            if k < 0.75:
                return {"time": r.choice(moments)}
            if k < 0.85:
                self.evs += 1
                self.actors.append({"k": "fire", "ev": "E%d" % self.evs, "at": r.choice(moments)})
                return {"ev": "E%d" % self.evs}
            return self.leaf(names)

        def expr():
            k = r.random()
            if k < 0.7:
                return when()
            parts = [when() for _ in range(r.randint(2, 3))]
            return {"and": parts} if k < 0.8 else {"or": parts} if k < 0.92 else parts

        def one(names):
            n = self.name("r")
            k = r.random()
            if k < 0.5:
                node = {"t": "move", "n": n, "mover": r.choice(movers), "dest": there, "dur": self.dur() or 1}
                if r.random() < 0.1:
                    node["dest"] = r.choice(sites)
            elif k < 0.8:
                ves = r.choice(movers)
                if "cont" not in self.objs[ves]:
                    return self.basic(names)
                a, b = r.choice(sites), ves
                if r.random() < 0.4:
                    a, b = b, a
                node = {"t": "shift", "n": n, "proc": ves, "org": a, "dst": b, "amt": self.pick(0.5, 1, 2, 3)}
                if r.random() < 0.5:
                    node["dur"] = self.dur()
                else:
                    node["phase"] = self.pick("loading", "unloading")
            else:
                return self.basic(names)
            if r.random() < 0.85:
                node["se"] = expr()
            names.append(n)
            return self.plug(node) if r.random() < 0.4 else node

        acts = []
        for _ in range(r.randint(2, 6)):
            acts.append(self.tree(names, self.pick(0, 0, 0, 1), one))
        if r.random() < 0.5:
            # whoever sails away does not load any more
            moves = [n for n in walk(acts) if n["t"] == "move"]
            for n in moves:
                n["dest"] = r.choice(sites)
        for n in walk(acts):
            if n["t"] == "while":
                fix_zero(n)
        for t in moments:
            for _ in range(r.randint(1, 2)):
                self.actors.append(
                    {"k": self.pick("put", "put", "get"), "obj": r.choice(sites), "amt": self.pick(1, cap / 2, cap - 1, cap), "at": t}
                )
        return acts

    def serialise_groups(self, acts):
        """Activities that share a group must not run side by side."""
        seen = {}

        def visit(node, thread):
            if node.get("grp"):
                owner = seen.setdefault(node["grp"], thread)
                if owner != thread:
                    del node["grp"]
                    node.pop("keep", None)
            for i, s in enumerate(node.get("subs", ())):
                visit(s, thread + (i,) if node["t"] == "par" else thread)

        for i, a in enumerate(acts):
            visit(a, (i,))
        # without a group nothing is kept
        for n in walk(acts):
            if n["t"] in ("move", "shift") and not n.get("grp"):
                n.pop("keep", None)

    def trees(self):
        names = []
        for _ in range(self.r.randint(0, 2)):
            self.tank()
        if self.yes("alog"):
            self.loggable()
        return [self.tree(names, self.pick(0, 1, 2, 2, 3)) for _ in range(self.r.randint(1, 4))]

    def mixed(self):
        acts = self.fleet()
        names = [n["n"] for n in walk(acts)]
        if self.r.random() < 0.5:
            self.tank()
        acts += [self.tree(names, self.pick(0, 1, 2)) for _ in range(self.r.randint(1, 2))]
        self.r.shuffle(acts)
        return acts

    def multi(self):
        """Containers with several kinds of content."""
        r = self.r
        ids = ["MP", "TP", "XX"][: r.randint(2, 3)]
        if r.random() < 0.1:
            ids = ["T", "TP", "TPX", "x y", "reservations", "default2"][: self.pick(3, 4, 5, 6)]
        if r.random() < 0.4:
            # one of them is what is meant when no content is given
            ids[r.randrange(len(ids))] = "default"
        cont = {}
        for c in ids:
            cap = self.pick(4, 6, 10)
            cont[c] = [cap, r.randint(1, cap)]
        o = self.name("S")
        self.objs[o] = {"kind": "msite", "pos": 0, "slots": self.slots(), "cont": cont}
        d = self.name("S")
        self.objs[d] = {
            "kind": "msite", "pos": 1, "slots": self.slots(),
            "cont": {c: [cont[c][0] + self.pick(0, 2), 0] for c in ids},
        }
        if r.random() < 0.3:
            self.objs[d]["store"] = len(ids) + 2
        acts = []
        for _ in range(r.randint(1, 3)):
            v = self.name("V")
            speed = self.pick(2, 5, 10)
            self.objs[v] = {
                "kind": "mvessel", "pos": 0, "slots": 1,
                "cont": {c: [self.pick(1, 2, 3, 5), 0] for c in ids},
                "v": [speed, self.pick(speed, speed / 2)],
                "lr": self.rate(), "ur": self.rate(),
            }
            if r.random() < 0.3:
                for c in ids:
                    cap = self.objs[v]["cont"][c][0]
                    self.objs[v]["cont"][c][1] = self.pick(0, 0, 0.5, 1, cap)
            subs = []
            some = r.sample(ids, r.randint(1, len(ids)))
            base = self.name("m")
            subs.append({"t": "move", "n": base + "a", "mover": v, "dest": o})
            for c in some:
                load = {"t": "shift", "n": base + "l" + c, "proc": v, "org": o, "dst": v, "cid": c,
                        "amt": self.pick(None, 1, 1, 2)}
                if self.yes("rates"):
                    load["phase"] = "loading"
                else:
                    load["dur"] = self.dur()
                subs.append(load)
            subs.append({"t": "move", "n": base + "b", "mover": v, "dest": d})
            for c in r.sample(some, len(some)):
                subs.append({"t": "shift", "n": base + "u" + c, "proc": v, "org": v, "dst": d, "cid": c,
                             "phase": "unloading", "amt": self.pick(None, None, 0.5, 1)})
            for s in subs:
                if s["t"] == "move" and not self.yes("computed_move"):
                    s["dur"] = self.dur()
                self.plug(s)
                if self.yes("se") and r.random() < 0.3:
                    c = r.choice(ids)
                    s["se"] = {"c": [r.choice([o, d]), self.pick("ge", "le", "gt", "lt", "full", "empty"), 1, c]}
                    if s["se"]["c"][1] in ("full", "empty"):
                        s["se"]["c"][2] = None
            acts.append({"t": "seq", "n": self.name("Q"), "subs": subs})
            if r.random() < 0.3:
                c = r.choice(some)
                acts[-1]["t"] = "while"
                acts[-1]["cond"] = {"or": [{"c": [o, "empty", None, c]}, {"c": [d, "ge", cont[c][0], c]}, {"time": self.pick(5, 20)}]}
                fix_zero(acts[-1])
        if r.random() < 0.3:
            # straight from one to the other
            self.objs[d]["pos"] = self.objs[o]["pos"]
            k = self.crane(0)
            c = r.choice(ids)
            node = {"t": "shift", "n": self.name("x"), "proc": k, "org": o, "dst": d, "cid": c,
                    "phase": self.pick("loading", "unloading"), "amt": self.pick(None, 1, 2)}
            acts.append(self.plug(node))
        return acts

    def chain(self):
        """A long chain of activities that wait for one another, in any order; deep expressions."""
        r = self.r
        n = self.pick(3, 6, 12, 24, 48, 95)
        ves = self.mover(0) if r.random() < 0.3 else None
        acts, names = [], []
        for k in range(n):
            name = self.name("c")
            node = {"t": "basic", "n": name, "dur": self.pick(0, 0.25, 0.5, 1, 1)}
            if ves and r.random() < 0.2:
                node = {"t": "move", "n": name, "mover": ves, "dest": ves, "dur": self.pick(0.25, 1)}
            if r.random() < 0.15:
                self.plug(node)
            if r.random() < 0.15:
                node = {"t": self.pick("seq", "par"), "n": self.name("C"), "subs": [node]}
            if names:
                key = "actid" if r.random() < 0.3 and not self.use_uuid else "act"
                e = {key: names[-1]}
                k = r.random()
                if k < 0.15:
                    e = [e, {"act": r.choice(names)}]
                elif k < 0.25:
                    e = {"or": [e, {"act": names[-1]}, {"time": 10**6}]}
                elif k < 0.35:
                    e = {"and": [e, {"time": self.pick(0, 1, 3)}]}
                for _ in range(self.pick(0, 0, 0, 0, 1, 3, 15)):
                    e = self.pick({"and": [e]}, {"or": [e]}, [e])
                node["se"] = e
            acts.append(node)
            names.append(node["n"])
        if r.random() < 0.7:
            acts.reverse()
        elif r.random() < 0.7:
            r.shuffle(acts)
        return acts

    # -- registration ------------------------------------------------------
    def apart(self, acts):
        """Activities registered apart from the others, later or under names that exist already."""
        r = self.r
        if self.yes("twin"):
            k = r.randrange(len(acts))
            acts.append(twin(acts[k], "'"))
            acts[-1]["b"] = 1
        if self.yes("late") and (len(acts) > 1 or r.random() < 0.2):
            # whatever refers to a late activity is late as well
            b = max(a.get("b", 0) for a in acts) or 1
            chosen = [a for a in acts if a.get("b")] or [r.choice(acts)]
            names = {n["n"] for n in everyone(chosen)}
            more = True
            while more:
                more = False
                for a in acts:
                    if a not in chosen and mentions([a]) & names:
                        chosen.append(a)
                        names |= {n["n"] for n in everyone([a])}
                        more = True
            apart = [a for a in chosen if any(n.get("as") for n in walk([a]))]
            for a in chosen:
                a["b"] = b if a in apart or not apart else b + 1
            for k in sorted({a["b"] for a in chosen}):
                self.actors.append({"k": "reg", "b": k, "at": self.when()})
            times = sorted(a["at"] for a in self.actors if a["k"] == "reg")
            for a in self.actors:
                if a["k"] == "reg":
                    a["at"] = times.pop(0)

    def alike(self, acts):
        """Names that begin with one another, or that mean something to a program."""
        r = self.r
        how = self.pick("a", "prefix", "signs", "words", "digits")
        signs = ["m.", "m*", "m+ (1)", "[m]", "m|n", "^m$", "m\\d", "%s", "{m}", "m,n", "m;n", '"m"', "'m'", "µ-ø", "m\nn", " m", "m "]
        words = ["START", "STOP", "WAIT_START", "default", "nan", "None", "name", "ID", "Activity", "", "0", "critical_path"]
        new = {}
        for n in walk(acts):
            base, k = n.get("as", n["n"]), len(new)
            if base not in new:
                if how == "a":
                    name = "a" * (k + 1)
                elif how == "digits":
                    name = str(k)
                elif how == "signs" and k < len(signs):
                    name = signs[k]
                elif how == "words" and k < len(words):
                    name = words[k]
                else:
                    name = "a%d" % k
                new[base] = name
        if r.random() < 0.5:
            names = list(new.values())
            r.shuffle(names)
            new = dict(zip(new, names))
        for n in walk(acts):
            n["as"] = new[n.get("as", n["n"])]

    # -- actors ----------------------------------------------------------
    def faults(self, acts):
        r = self.r
        if not self.yes("actors"):
            return
        conts = [n for n, o in self.objs.items() if "cont" in o]
        res = [n for n, o in self.objs.items() if o["kind"] != "log"]
        if res and self.yes("holds"):
            for _ in range(r.randint(1, 3)):
                self.actors.append(
                    {"k": "hold", "obj": r.choice(res), "at": self.when(), "dur": self.dur() or 1}
                )
        sites = [n for n in conts if self.objs[n]["kind"] in ("site", "msite")]
        if sites and self.yes("content"):
            for _ in range(r.randint(1, 4)):
                o = r.choice(sites)
                self.actors.append(
                    {
                        "k": self.pick("put", "get"), "obj": o,
                        "cid": r.choice(sorted(self.objs[o]["cont"])),
                        "amt": self.pick(0.5, 1, 2, 3), "at": self.when(),
                    }
                )
        if conts and self.yes("subs"):
            if r.random() < 0.06:
                # many different questions to one container
                o = self.pick(*(self.tanks or conts))
                cid = sorted(self.objs[o]["cont"])[0]
                cap = self.objs[o]["cont"][cid][0]
                n = self.pick(25, 45)
                order = r.sample(range(n), n)
                for k in order:
                    self.actors.append({
                        "k": "sub", "obj": o, "cid": cid, "op": self.pick("ge", "le"), "level": cap * k / n,
                        "at": self.pick(0, 0, 0, 1),
                    })
            for _ in range(r.randint(1, 4)):
                o = r.choice(conts)
                cid = r.choice(sorted(self.objs[o]["cont"]))
                cap = self.objs[o]["cont"][cid][0]
                self.actors.append(
                    {
                        "k": "sub", "obj": o, "cid": cid,
                        "op": self.pick("full", "empty", "ge", "gt", "le", "lt"),
                        "level": self.pick(0, 1, 2, cap / 2, cap, 3), "at": self.when(),
                    }
                )

    def when(self):
        return self.pick(0, 0.5, 1, 2, 2, 3, 4, 5, 5, 7, 7.25, 10, 12, 15, 20, 30)

    # -- the whole -------------------------------------------------------
    def scenario(self):
        r = self.r
        fams = ["fleet", "tree", "mixed", "contend", "multi", "squeeze", "midway", "rush", "chain"]
        self.use_uuid = self.yes("uuid")
        fam = r.choices(fams, [self.p[f] for f in fams])[0]
        acts = {
            "fleet": self.fleet, "tree": self.trees, "mixed": self.mixed,
            "contend": self.contend, "multi": self.multi, "squeeze": self.squeeze, "midway": self.midway,
            "rush": self.rush, "chain": self.chain,
        }[fam]()
        self.faults(acts)
        self.apart(acts)
        if self.yes("alike"):
            self.alike(acts)
        used = objects_used(acts, self.actors)
        sc = {
            "v": 1,
            "fam": fam,
            "objs": {n: o for n, o in self.objs.items() if n in used},
            "acts": acts,
            "horizon": self.pick(60, 120, 300) if fam != "tree" else self.pick(30, 60, 100),
            "sched": {
                "mode": self.pick("fifo", "perm", "perm", "iso", "iso"),
                "seed": r.getrandbits(32),
            },
        }
        if self.p["computed_move"]:
            sc["horizon"] *= 100
        if r.random() < 0.3:
            # content that is added or taken without being booked
            for a in self.actors:
                if a["k"] in ("put", "get") and r.random() < 0.7:
                    a["bare"] = True
        if self.actors:
            sc["actors"] = self.actors
            if r.random() < 0.5:
                sc["actors_first"] = True
        if self.yes("hash"):
            sc["hash"] = r.getrandbits(30) | 1
        if self.use_uuid:
            sc["ids"] = r.getrandbits(30) | 1
        if self.yes("t0"):
            sc["t0"] = self.pick(1, 1000, 86400, 1700000000)
        if self.yes("pause"):
            sc["ops"] = pauses(r)
        if self.p.get("look") and self.yes("look"):
            sc["ops"] = sc.get("ops") or pauses(r)
            for _ in range(r.randint(1, 3)):
                sc["ops"].insert(r.randint(1, len(sc["ops"])), {"observe": r.choice(LOOKS)})
        sc["cap"] = 6000
        if self.yes("stretch"):
            self.stretch(sc)
        return sc

    def stretch(self, sc):
        """Other units of time and content (powers of two: nothing is rounded), longer loops, numpy."""
        r = self.r
        kinds = r.sample(["time", "content", "loops", "numpy"], r.choice([1, 1, 1, 2, 3]))
        if "loops" in kinds:
            loops = [n for n in walk(sc["acts"]) if n["t"] in ("repeat", "while")]
            if loops:
                n = r.choice(loops)
                if n["t"] == "repeat":
                    n["k"] = self.pick(6, 9, 11, 17, 33, 101)
                    fix_zero(n)
                else:
                    rescale_expr(n["cond"], self.pick(4, 16), 1)
                sc["horizon"] *= 8
        f = self.pick(1 / 16, 64, 4096, 65536) if "time" in kinds else 1
        g = self.pick(1 / 16, 64, 1024, 2**20) if "content" in kinds else 1
        if self.floaty:
            g = min(g, 1)  # differences of large numbers are less exact
        if f != 1 or g != 1:
            rescale(sc, f, g)
        if "numpy" in kinds:
            sc["numpy"] = 1


def rescale_expr(e, f, g):
    if isinstance(e, list):
        for x in e:
            rescale_expr(x, f, g)
    elif isinstance(e, dict):
        for k in ("and", "or"):
            if k in e:
                rescale_expr(e[k], f, g)
        if "time" in e:
            e["time"] *= f
        if "c" in e:
            e["c"] = list(e["c"])
            if e["c"][2] is not None:
                e["c"][2] *= g


def rescale(sc, f, g):
    """The same scenario with time in other units (f) and content in other units (g)."""
    seen = set()

    def times(d, keys, x=f):
        for k in keys:
            if d.get(k) is not None:
                d[k] *= x

    for n in walk(sc["acts"]):
        if id(n) in seen:
            continue
        seen.add(id(n))
        times(n, ["dur"])
        times(n, ["amt"], g)
        for key in ("se", "cond"):
            if n.get(key) is not None:
                n[key] = copy.deepcopy(n[key])
                rescale_expr(n[key], f, g)
        if n.get("plug"):
            n["plug"] = copy.deepcopy(n["plug"])
            for p in n["plug"]:
                times(p, ["pre", "post", "wl", "wd"])
                if "ts" in p:
                    p["ts"] = [t * f for t in p["ts"]]
    for o in sc["objs"].values():
        for c in o.get("cont", {}).values():
            c[0] *= g
            c[1] *= g
        times(o, ["lm", "um"])
        for key in ("lr", "ur"):
            if isinstance(o.get(key), dict):
                o[key] = dict(o[key], f=f, g=g)
            elif key in o:
                o[key] *= g / f
        if "v" in o:
            o["v"] = [v / f for v in o["v"]]
    for a in sc.get("actors", ()):
        times(a, ["at", "dur"])
        times(a, ["amt", "level"], g)
    for op in sc.get("ops") or ():
        times(op, ["until"])
    sc["horizon"] *= f


def everyone(nodes):
    """All nodes, with those that a single run process consists of."""
    from .build import SINGLE_PARTS

    for n in walk(nodes):
        yield n
        if n["t"] == "single":
            for part in SINGLE_PARTS:
                yield {"n": n["n"] + part}


def mentions(nodes):
    """The names of the activities that expressions refer to."""
    out = set()

    def look(e):
        if isinstance(e, list):
            for x in e:
                look(x)
        elif isinstance(e, dict):
            for k in ("and", "or"):
                if k in e:
                    look(e[k])
            for k in ("act", "actid"):
                if k in e:
                    out.add(e[k])

    for n in walk(nodes):
        look(n.get("se"))
        look(n.get("cond"))
    return out


def twin(node, mark):
    """A copy whose activities have the same names (but another label and id)."""
    node = copy.deepcopy(node)
    for n in walk([node]):
        n["as"] = n.get("as", n["n"])
        n["n"] += mark
        if n.get("grp"):
            n["grp"] += mark
    return node


LOOKS = ["frames", "levels", "state", "flat", "logs", "logs", "gantt", "recorded"]


def pauses(r):
    ops = []
    t = 0
    for _ in range(r.randint(1, 6)):
        t += r.choice([0.25, 0.5, 1, 2, 3, 5, 9])
        ops.append({"until": t})
    return ops


def walk(nodes):
    for node in nodes:
        yield node
        yield from walk(node.get("subs", ()))


def fix_zero(node):
    """A while loop must take time, or it spins."""
    leafs = [n for n in walk(node["subs"]) if "subs" not in n]
    for n in leafs:
        if n["t"] == "basic" and n["dur"] == 0:
            n["dur"] = 1
        if n["t"] in ("move", "shift") and n.get("dur") == 0:
            n["dur"] = 1


def objects_used(acts, actors):
    out = set()

    def expr(e):
        if isinstance(e, list):
            for x in e:
                expr(x)
        elif isinstance(e, dict):
            for k in ("and", "or"):
                if k in e:
                    expr(e[k])
            if "c" in e:
                out.add(e["c"][0])

    for n in walk(acts):
        for k in ("mover", "dest", "proc", "org", "dst", "loader", "unloader"):
            if n.get(k):
                out.add(n[k])
        out.update(n.get("alog") or ())
        out.update(n.get("keep") or ())
        expr(n.get("se"))
        expr(n.get("cond"))
    for a in actors:
        if "obj" in a:
            out.add(a["obj"])
    return out


def make(rng, prof=None):
    return copy.deepcopy(G(rng, prof).scenario())
