"""Record everything observable about a run as one totally ordered history.

``observe`` runs each time a process gives control back and after each step of the
simulator.  It compares the visible state (levels, resource users, locations, logbooks,
the current process of every activity) with what it saw last and appends the differences,
stamped with the simulator's event sequence number and attributed to the process that was
running.
"""

EPOCH = __import__("datetime").datetime(1970, 1, 1)


def ts(value):
    return (value - EPOCH).total_seconds()


class Entry:
    __slots__ = (
        "seq", "now", "t", "state", "label", "act_id", "obj", "who", "actual", "raw", "copy",
    )

    def __repr__(self):
        return "<%s %s %s t=%s %s>" % (
            self.obj, self.act_id, self.state, self.t, self.label or "",
        )


class Inst:
    """One execution of one activity."""

    def __init__(self, name, k, seq, t):
        self.name, self.k = name, k
        self.reg_seq, self.reg_t = seq, t
        self.done_seq = self.done_t = None
        self.ok = None
        self.exc = None
        self.entries = []  # own logbook
        self.moves = []  # level changes made by this instance (seq, t, obj, cid, delta, before)
        self.geoms = []  # (seq, t, obj, new)

    def __repr__(self):
        return "%s#%d" % (self.name, self.k)


class Recorder:
    def __init__(self):
        self.world = None
        self.seq = 0
        self.entries = []  # all log entries, objects and activities
        self.insts = {}  # name -> [Inst]
        self.owner = {}  # Process -> Inst
        self.levels = {}  # (obj, cid) -> [(seq, t, level, reserved, who)]
        self.users = {}  # obj -> [(seq, t, (owner, ...))]
        self.geoms = {}  # obj -> [(seq, t, (x, y), who)]
        self.exo = []  # (seq, t, obj, cid, delta)
        self.bare = {}  # (obj, cid) -> changes of the content that were not booked
        self.plug = []  # (seq, t, inst, which, spec)
        self.plugargs = []
        self.settles = []  # (seq, t)
        self.monitors = []  # called after every observation with (who)
        self.settle_monitors = []
        self.problems = []  # (code, message, t)
        self.running = []  # stack not needed: simpy runs one process at a time
        self.notes = {}
        self._pend_actual = {}

    # -- set-up ----------------------------------------------------------
    def attach(self):
        w = self.world
        env = w.env
        env.on_switch = self.observe
        env.after_step = self._after_step
        env.on_settle = self._settle
        self.res_objs = {n: o for n, o in w.objs.items() if hasattr(o, "resource")}
        self.cont_objs = {n: o for n, o in w.objs.items() if hasattr(o, "container")}
        self.geo_objs = {n: o for n, o in w.objs.items() if hasattr(o, "geometry")}
        self.cids = {n: list(w.sc["objs"][n]["cont"]) for n in self.cont_objs}
        self.loggers = [(n, o, False) for n, o in w.objs.items()]
        self.loggers += [(n, a, True) for n, a in w.acts.items()]
        self.loglen = [0] * len(self.loggers)
        self.procs = {n: None for n in w.acts}
        self.insts = {n: [] for n in w.acts}
        self.id2act = {a.id: n for n, a in w.acts.items()}
        self.open = {}  # name -> Inst not done
        for n in self.cont_objs:
            for c in self.cids[n]:
                lv, rv = self._level(n, c)
                self.levels[n, c] = [(0, env.now, lv, rv, None)]
        for n in self.res_objs:
            self.users[n] = [(0, env.now, ())]
        for n, o in self.geo_objs.items():
            self.geoms[n] = [(0, env.now, (o.geometry.x, o.geometry.y), None)]
        self._last_lv = {k: v[0][2:4] for k, v in self.levels.items()}
        self._last_us = {k: () for k in self.users}
        self._last_geo = {n: o.geometry for n, o in self.geo_objs.items()}

    def _level(self, n, c):
        cont = self.cont_objs[n].container
        return cont.get_level(c), cont.get_level(c + "_reservations")

    def problem(self, code, message, t=None):
        if len(self.problems) < 50:
            self.problems.append((code, message, self.world.env.now if t is None else t))

    def stamp(self):
        self.seq += 1
        return (self.seq, self.world.env.now)

    # -- hooks -----------------------------------------------------------
    def logged(self, obj, index, actual):
        self._pend_actual[id(obj), index] = (actual, self.world.env.now)

    def exogenous(self, obj, cid, delta, bare=False):
        if bare:
            self.bare[obj, cid] = self.bare.get((obj, cid), 0) + delta
        self.seq += 1
        self.exo.append((self.seq, self.world.env.now, obj, cid, delta))

    def current(self):
        return self.owner.get(self.world.env.active_process)

    def plugin_call(self, name, which, spec):
        self.seq += 1
        inst = self.insts[name][-1] if self.insts[name] else None
        self.plug.append((self.seq, self.world.env.now, inst, which, spec))

    def plugin_args(self, name, spec, args, kwargs):
        inst = self.insts[name][-1] if self.insts[name] else None
        self.plugargs.append(
            (inst, spec, kwargs.get("start_preprocessing"), kwargs.get("start_activity"))
        )

    def _after_step(self):
        self.observe(None)

    def _settle(self):
        self.settles.append((self.seq, self.world.env.now))
        for m in self.settle_monitors:
            m()

    def actor_of(self, proc):
        if proc is None:
            return None
        inst = self.owner.get(proc)
        if inst is not None:
            return inst
        i = self.world.actor_procs.get(proc)
        return ("actor", i) if i is not None else ("other", None)

    def observe(self, proc):
        w = self.world
        env = w.env
        now = env.now
        self.seq += 1
        seq = self.seq
        # (re)registrations and completions
        for name, act in w.acts.items():
            p = getattr(act, "main_process", None)
            if p is not self.procs[name]:
                self.procs[name] = p
                if p is not None:
                    inst = Inst(name, len(self.insts[name]), seq, now)
                    self.insts[name].append(inst)
                    self.owner[p] = inst
                    self.open[name] = inst
        who = self.actor_of(proc)
        if isinstance(who, Inst):
            p = proc
            if p.triggered and who.done_seq is None:
                who.done_seq, who.done_t, who.ok = seq, now, p._ok
                if not p._ok:
                    who.exc = p._value
                if self.open.get(who.name) is who:
                    del self.open[who.name]
        # levels
        for key, last in self._last_lv.items():
            cur = self._level(*key)
            if cur != last:
                self._last_lv[key] = cur
                self.levels[key].append((seq, now) + cur + (who,))
                if cur[0] != last[0] and isinstance(who, Inst):
                    who.moves.append((seq, now, key[0], key[1], cur[0] - last[0], last[0]))
        # resources
        for n, o in self.res_objs.items():
            cur = tuple(id(r) for r in o.resource.users)
            if cur != self._last_us[n]:
                self._last_us[n] = cur
                self.users[n].append(
                    (seq, now, tuple(self.actor_of(r.proc) for r in o.resource.users))
                )
        # locations
        for n, o in self.geo_objs.items():
            g = o.geometry
            if g is not self._last_geo[n]:
                self._last_geo[n] = g
                self.geoms[n].append((seq, now, (g.x, g.y), who))
                if isinstance(who, Inst):
                    who.geoms.append((seq, now, n, (g.x, g.y)))
        # logbooks
        for i, (n, o, is_act) in enumerate(self.loggers):
            book = o.logbook
            if len(book) == self.loglen[i]:
                continue
            if len(book) < self.loglen[i]:
                self.problem("history", "logbook of %s shrank" % n)
                self.loglen[i] = len(book)
                continue
            for j in range(self.loglen[i], len(book)):
                raw = book[j]
                e = Entry()
                e.seq, e.now = seq, now
                e.t = ts(raw["Timestamp"])
                e.state = raw["ActivityState"]
                e.label = raw["ActivityLabel"]
                e.act_id = raw["ActivityID"]
                e.obj = n
                e.who = who
                e.actual = self._pend_actual.pop((id(o), j), None)
                e.raw = raw
                e.copy = freeze(raw)
                self.entries.append(e)
                if is_act:
                    insts = self.insts[n]
                    if insts:
                        insts[-1].entries.append(e)
                    else:
                        self.problem("records", "%s logged before it was registered" % n)
            self.loglen[i] = len(book)
        for m in self.monitors:
            m(who)


def freeze(raw):
    state = raw["ObjectState"]
    level = state.get("container level")
    geom = state.get("geometry")
    return (
        raw["Timestamp"],
        raw["ActivityID"],
        raw["ActivityState"],
        tuple(sorted((k, str(v)) for k, v in raw["ActivityLabel"].items())),
        tuple(sorted(level.items())) if isinstance(level, dict) else level,
        (geom.x, geom.y) if geom is not None else None,
    )
