"""Oracles: the properties, checked against the recorded history of a run.

Nothing here looks inside OpenCLSim.  The oracles use what a user can see: logbooks,
container levels, resource users and queues, locations, the processes of the activities and
the simulated clock.  Each problem carries a code; ``props.py`` maps codes to properties.
"""

import math

from .build import POINTS, speed_fn, rate_fn
from .record import Inst, freeze

INF = math.inf
EPS = 1e-5  # log timestamps are rounded to microseconds


def near(a, b, eps=EPS):
    return a == b or abs(a - b) <= eps + 1e-12 * max(abs(a), abs(b))


def geodesic(p, q):
    import pyproj

    global _geod
    try:
        g = _geod
    except NameError:
        g = _geod = pyproj.Geod(ellps="WGS84")
    return g.inv(p[0], p[1], q[0], q[1])[2]


OPS = {
    "ge": lambda a, b: a >= b,
    "gt": lambda a, b: a > b,
    "le": lambda a, b: a <= b,
    "lt": lambda a, b: a < b,
}


class Parsed:
    """The own log of one execution, taken apart."""

    def __init__(self):
        self.wait = None  # (start, stop) of the start event
        self.pre = []  # [(start, stop|None, ref)]
        self.start = None  # Entry
        self.sub = []  # labelled entries of sub processes
        self.stop = None
        self.post = []
        self.bad = None


class Spec:
    def __init__(self, world, truncated=False):
        self.w = world
        self.r = world.rec
        self.truncated = truncated
        self.parsed = {}
        self.kids = {}

    def bad(self, code, msg, *args, t=None):
        self.r.problem(code, msg % args if args else msg, t)

    # ------------------------------------------------------------------
    # helpers over the history
    def history(self, obj, cid):
        return self.r.levels[obj, cid]

    def level_at(self, obj, cid, seq):
        """Level right after event number seq."""
        out = None
        for rec in self.history(obj, cid):
            if rec[0] > seq:
                break
            out = rec[2]
        return out

    def cap(self, obj, cid):
        return self.w.objs[obj].container.get_capacity(cid)

    def inst_at(self, name, seq):
        """Latest execution of an activity that was registered by event seq."""
        out = None
        for i in self.r.insts[name]:
            if i.reg_seq > seq:
                break
            out = i
        return out

    def done_t(self, inst):
        if inst is None or inst.done_seq is None or not inst.ok:
            return INF
        return inst.done_t

    def failed(self, inst):
        return inst is not None and inst.done_seq is not None and not inst.ok

    def done_seq(self, inst):
        if inst is None or inst.done_seq is None or not inst.ok:
            return INF
        return inst.done_seq

    def meant(self, e):
        """The activities that an expression means: an id means one, a name all that bear it."""
        if "actid" in e and not self.w.sc.get("ids"):
            return [e["actid"]]
        label = e.get("act", e.get("actid"))
        if not self.w.called:
            return [label]
        name = self.w.real(label)
        return [n for n in self.w.nodes if self.w.real(n) == name]

    # when an expression occurs, if it is first looked at at (seq, t): (earliest, latest)
    def occurs(self, e, seq, t):
        if e is None:
            return (t, t)
        if isinstance(e, list) or "and" in e:
            parts = [self.occurs(x, seq, t) for x in (e if isinstance(e, list) else e["and"])]
            return (
                max([p[0] for p in parts], default=t),
                max([p[1] for p in parts], default=t),
            )
        if "or" in e:
            parts = [self.occurs(x, seq, t) for x in e["or"]]
            return (
                min([p[0] for p in parts], default=t),
                min([p[1] for p in parts], default=t),
            )
        if "time" in e:
            at = max(t, self.w.t0 + e["time"])
            return (at, at)
        if "act" in e or "actid" in e:
            at = t
            for name in self.meant(e):
                inst = self.inst_at(name, seq)
                if inst is None and len(self.meant(e)) > 1:
                    continue  # this namesake is not there yet
                if self.failed(inst):  # the run ends here
                    return (max(at, inst.done_t), INF)
                at = max(at, self.done_t(inst))
            return (at, at)
        if "ev" in e:
            at = max(t, self.w.fire_times.get(e["ev"], INF))
            return (at, at)
        if "c" in e:
            return self.occurs_level(e["c"], seq, t)
        raise KeyError(e)

    def occurs_level(self, c, seq, t):
        obj, op, level, cid = c
        if op == "full":
            op, level = "ge", self.cap(obj, cid)
        elif op == "empty":
            op, level = "le", 0
        test = OPS[op]
        lo = hi = INF
        hist = self.history(obj, cid)
        # index of the level in force when the instant of t began
        i = 0
        while i + 1 < len(hist) and hist[i + 1][1] < t:
            i += 1
        while i < len(hist):
            at = max(t, hist[i][1])
            # logged times are rounded: the next change may belong to the same instant
            last = i + 1 == len(hist) or hist[i + 1][1] > at + EPS
            if test(hist[i][2], level):
                lo = min(lo, at)
                if last:
                    hi = at
                    break
            i += 1
        return (lo, hi)

    # ------------------------------------------------------------------
    # which execution of the parent an execution belongs to
    def context(self, inst):
        """(parent, siblings before, ready time, ready seq) of an execution."""
        pname = self.w.parent[inst.name]
        if pname is None:
            return None, None, inst.reg_t, inst.reg_seq
        pinst = self.inst_at(pname, inst.reg_seq)
        pp = self.parse(pinst)
        node = self.w.nodes[pname]
        names = [s["n"] for s in node["subs"]]
        i = names.index(inst.name)
        if node["t"] == "par" or i == 0:
            if pp.start is None:
                return pinst, None, INF, INF
            return (
                pinst,
                None,
                max(pp.start.t, inst.reg_t),
                max(pp.start.seq, inst.reg_seq),
            )
        sib = self.inst_at(names[i - 1], inst.reg_seq)
        return (
            pinst,
            sib,
            max(self.done_t(sib), inst.reg_t),
            max(self.done_seq(sib), inst.reg_seq),
        )

    def children(self, inst):
        """name -> executions that belong to this execution of the parent."""
        key = (inst.name, inst.k)
        node = self.w.nodes[inst.name]
        out = {}
        nxt = (
            self.r.insts[inst.name][inst.k + 1].reg_seq
            if inst.k + 1 < len(self.r.insts[inst.name])
            else INF
        )
        for s in node["subs"]:
            out[s["n"]] = [
                i
                for i in self.r.insts[s["n"]]
                if inst.reg_seq <= i.reg_seq < nxt
            ]
        return out

    # ------------------------------------------------------------------
    def parse(self, inst):
        key = (inst.name, inst.k)
        if key in self.parsed and self.parsed[key][0] == len(inst.entries):
            return self.parsed[key][1]
        p = self._parse(inst)
        self.parsed[key] = (len(inst.entries), p)
        return p

    def _parse(self, inst):
        p = Parsed()
        es = inst.entries
        n = len(es)
        aid = self.w.acts[inst.name].id
        structural = "subs" in self.w.nodes[inst.name]
        i = 0

        def plugin_waits(i, out):
            while i < n and es[i].state == "WAIT_START" and es[i].label.get("type") == "plugin":
                a = es[i]
                if i + 1 < n:
                    b = es[i + 1]
                    if b.state != "WAIT_STOP" or b.label != a.label:
                        p.bad = "plugin wait %r followed by %r" % (a, b)
                        return i + 1
                    out.append((a, b))
                    i += 2
                else:
                    out.append((a, None))
                    i += 1
            return i

        for e in es:
            if e.act_id != aid:
                p.bad = "entry %r carries the id of another activity" % e
        if n and es[0].state == "WAIT_START" and not es[0].label:
            if n > 1 and es[1].state == "WAIT_STOP" and not es[1].label:
                p.wait = (es[0], es[1])
                i = 2
            else:
                p.bad = "WAIT_START without WAIT_STOP"
                i = 1
        i = plugin_waits(i, p.pre)
        if i < n and es[i].state == "START" and not es[i].label:
            p.start = es[i]
            i += 1
            while i < n and es[i].label.get("type") == "subprocess":
                p.sub.append(es[i])
                i += 1
            if p.sub and not structural:
                p.bad = "sub process entries in the log of a plain activity"
            if i < n and es[i].state == "STOP" and not es[i].label:
                p.stop = es[i]
                i += 1
                i = plugin_waits(i, p.post)
        if i < n and p.bad is None:
            p.bad = "unexpected entry %r" % es[i]
        if p.pre and p.pre[-1][1] is None and p.start is not None and p.bad is None:
            p.bad = "START while waiting in a plugin"
        return p

    # ------------------------------------------------------------------
    # the checks after a run
    def check_all(self):
        for name, insts in self.r.insts.items():
            for inst in insts:
                self.check_inst(inst)
        self.check_object_logs()
        self.check_changes()
        self.check_resources()
        self.check_movement()
        self.check_subscribers()
        self.check_immutable()

    def check_inst(self, inst):
        w = self.w
        node = w.nodes[inst.name]
        t = node["t"]
        p = self.parse(inst)
        done = inst.done_seq is not None and inst.ok
        if p.bad:
            self.bad("records", "%s: %s", inst, p.bad)
            return
        if done and p.stop is None:
            self.bad("records", "%s finished without a complete record", inst)
            return
        if done and any(b is None for a, b in p.pre + p.post):
            self.bad("records", "%s finished while waiting in a plugin", inst)
            return
        pinst, sib, ready, ready_seq = self.context(inst)
        pnode = w.nodes[pinst.name] if pinst is not None else None
        order_code = (
            "begin"
            if pnode is None
            else {"par": "parallel", "seq": "seqorder"}.get(pnode["t"], "loop")
        )
        order = "begin" if pinst is None else order_code
        if inst.entries and ready == INF:
            self.bad(order, "%s ran before its turn: %r", inst, inst.entries[0])
            return
        if not inst.entries and not inst.done_seq:
            # never began; whether it should have is decided when the clock advances
            return
        if inst.entries and inst.entries[0].seq < ready_seq:
            self.bad(order, "%s ran before its turn: %r", inst, inst.entries[0])
        lo, hi = self.occurs(node.get("se"), inst.reg_seq, inst.reg_t)
        lo, hi = max(lo, ready), max(hi, ready)
        # start event records
        if p.wait:
            a, b = p.wait
            if node.get("se") is None:
                self.bad("waitrec", "%s waited without a start event", inst)
            elif not near(a.t, ready):
                self.bad("begin", "%s: wait recorded from %s, could start at %s", inst, a.t, ready)
            elif not (lo - EPS <= b.t <= hi + EPS):
                self.bad("begin", "%s: start event occurred in [%s, %s], wait ended %s", inst, lo, hi, b.t)
            elif hi <= ready + EPS and b.t - a.t > EPS:
                self.bad("begin", "%s waited for an event that had occurred", inst)
            begin = b.t
        else:
            begin = ready
            first = inst.entries[0] if inst.entries else None
            if first is not None and lo > ready + EPS:
                if first.t < lo - EPS:
                    self.bad(
                        "begin",
                        "%s ran at %s, its start event occurred in [%s, %s]",
                        inst, first.t, lo, hi,
                    )
                else:
                    self.bad("waitrec", "%s waited for its start event without a record", inst)
        plain = t not in ("move", "shift")
        head = p.pre[0][0] if p.pre else p.start
        if head is not None:
            if plain and not near(head.t, begin):
                self.bad(order if p.wait is None else "begin", "%s: begin %s, first action %s", inst, begin, head.t)
            if head.t < begin - EPS:
                self.bad("begin", "%s acted at %s, before %s", inst, head.t, begin)
        self.check_plugins(inst, node, p)
        if p.start is not None:
            tail = p.pre[-1][1] if p.pre else None
            if tail is not None and not near(tail.t, p.start.t):
                self.bad("plugin", "%s: last pre wait ended %s, START %s", inst, tail.t, p.start.t)
        for e in (p.start, p.stop) + tuple(x for ab in p.pre + p.post for x in ab):
            if e is not None and not near(e.t, e.now):
                self.bad("history", "%s: %r recorded at %s", inst, e, e.now)
        if p.stop is not None:
            self.check_duration(inst, node, p)
            end = p.post[-1][1] if p.post else p.stop
            if done and end is not None and not near(inst.done_t, end.t):
                self.bad("records", "%s ended at %s, finished at %s", inst, end.t, inst.done_t)
        if "subs" in node:
            self.check_structure(inst, node, p)

    # -- plugins ---------------------------------------------------------
    def plugin_order(self, node):
        specs = list(node.get("plug", ()))
        mix = [s for s in specs if s.get("via") == "mixin"]
        # a later mixin class is put in front, so its constructor part runs last
        reg = [s for s in specs if s.get("via") != "mixin"]
        out = []
        for s in mix + reg:
            prio = {"delay": 3, "weather": 2}[s["p"]] if s.get("via") == "mixin" else s.get("prio", 0)
            out.append((prio, s))
        return [s for _, s in sorted(out, key=lambda x: x[0])]

    def check_plugins(self, inst, node, p):
        specs = self.plugin_order(node)
        # expected waits before the start
        expect_pre, expect_post = [], []
        for s in specs:
            if s["p"] == "stall" and s.get("pre"):
                expect_pre.append((s["ref"], s["pre"]))
            if s["p"] == "weather":
                expect_pre.append(("waiting on weather", s))
            if s["p"] == "stall" and s.get("post"):
                expect_post.append((s["ref"], s["post"]))
            if s["p"] == "delay":
                expect_post.append(("delay", s))
        # before the start: the weather wait is present only when needed
        waits = list(p.pre)
        cursor = None  # time at which the plugin acts
        if waits:
            cursor = waits[0][0].now
        elif p.start is not None:
            cursor = p.start.now
        for ref, what in expect_pre:
            if cursor is None:
                break
            a, b = waits[0] if waits else (None, None)
            if isinstance(what, dict):
                lo, hi = weather_start(what, cursor - self.w.t0)
                if lo is None:
                    break
                lo, hi = lo + self.w.t0, hi + self.w.t0
                if a is not None and a.label.get("ref") == ref:
                    waits.pop(0)
                    if not near(a.t, cursor):
                        self.bad("weather", "%s: weather wait from %s, expected %s", inst, a.t, cursor)
                    if b is None:
                        cursor = None
                        continue
                    if not (lo - EPS <= b.t <= hi + EPS):
                        self.bad(
                            "weather",
                            "%s: asked at %s, workable window in [%s, %s], started %s",
                            inst, cursor, lo, hi, b.t,
                        )
                    cursor = b.now
                elif lo > cursor + EPS and (a is not None or p.start is not None):
                    self.bad(
                        "weather",
                        "%s: asked at %s, did not wait for the workable window at %s",
                        inst, cursor, lo,
                    )
                continue
            if a is None:
                if p.start is not None:
                    calls = [c for c in self.r.plug if c[2] is inst and c[3] == "pre" and c[4].get("ref") == ref]
                    waited = calls and near(p.start.t, calls[-1][1] + what)
                    self.bad("waitrec" if waited else "plugin", "%s started without the %s wait", inst, ref)
                break
            waits.pop(0)
            if a.label.get("ref") != ref or not near(a.t, cursor):
                self.bad("plugin", "%s: wait %r, expected %s at %s", inst, a, ref, cursor)
                break
            if b is None:
                cursor = None
            else:
                if not near(b.t - a.t, what):
                    self.bad("plugin", "%s: %s waited %s instead of %s", inst, ref, b.t - a.t, what)
                cursor = b.now
        else:
            if waits:
                self.bad("plugin", "%s: unexpected wait %r", inst, waits[0][0])
        waits = list(p.post)
        if p.stop is None:
            return
        cursor = p.stop.t
        for ref, what in expect_post:
            if cursor is None:
                break
            if not waits:
                if inst.done_seq is not None and inst.ok:
                    waited = inst.done_t > cursor + EPS
                    self.bad("waitrec" if waited else "plugin", "%s finished without the %s wait", inst, ref)
                break
            a, b = waits.pop(0)
            if a.label.get("ref") != ref or not near(a.t, cursor):
                self.bad("plugin", "%s: wait %r, expected %s at %s", inst, a, ref, cursor)
                break
            dur = (a.t - p.start.t) * what["pct"] / 100 if isinstance(what, dict) else what
            if b is None:
                cursor = None
            else:
                slack = EPS * (1 + what["pct"] / 100) if isinstance(what, dict) else EPS  # of rounded times
                if not near(b.t - a.t, dur, slack):
                    self.bad("plugin", "%s: %s waited %s instead of %s", inst, ref, b.t - a.t, dur)
                cursor = b.t
        else:
            if waits:
                self.bad("plugin", "%s: unexpected wait %r", inst, waits[0][0])
        # calls made to the simulator's own plugins: order and number
        own = [s for s in specs if s["p"] in ("stall", "raise")]
        calls = [c for c in self.r.plug if c[2] is inst]
        pre = [c[4] for c in calls if c[3] == "pre"]
        post = [c[4] for c in calls if c[3] == "post"]
        if inst.done_seq is not None and inst.ok:
            if pre != own or post != own:
                self.bad(
                    "plugin", "%s: hooks called %d/%d times or out of order (%d registered)",
                    inst, len(pre), len(post), len(own),
                )
            for c in calls:
                if c[3] == "pre" and c[1] > p.start.now + EPS:
                    self.bad("plugin", "%s: pre hook at %s after START", inst, c[1])
                if c[3] == "post" and c[1] < p.stop.now - EPS:
                    self.bad("plugin", "%s: post hook at %s before STOP", inst, c[1])
            for i, spec, sp, sa in self.r.plugargs:
                if i is inst:
                    first = p.pre[0][0].t if p.pre else p.start.t
                    if sa is None or not near(sa, p.start.t):
                        self.bad("plugin", "%s: post hook told start_activity=%s, was %s", inst, sa, p.start.t)
                    if sp is None or not near(sp, first):
                        self.bad("plugin", "%s: post hook told start_preprocessing=%s, was %s", inst, sp, first)

    # -- durations -------------------------------------------------------
    def check_duration(self, inst, node, p):
        t = node["t"]
        took = p.stop.t - p.start.t
        if t == "basic":
            if not near(took, node["dur"]):
                self.bad("duration", "%s took %s instead of %s", inst, took, node["dur"])
        elif t == "move":
            want = self.move_duration(inst, node, p)
            if not near(took, want, 1e-4):
                self.bad(
                    "duration" if node.get("dur") is not None else "speed",
                    "%s took %s instead of %s", inst, took, want,
                )
        elif t == "shift":
            self.check_shift(inst, node, p)

    def pos_at(self, obj, seq):
        out = None
        for rec in self.r.geoms[obj]:
            if rec[0] > seq:
                break
            out = rec[2]
        return out

    def move_duration(self, inst, node, p):
        if node.get("dur") is not None:
            return node["dur"]
        o = self.w.sc["objs"][node["mover"]]
        a = self.pos_at(node["mover"], p.start.seq)
        b = self.pos_at(node["dest"], p.start.seq)
        dist = geodesic(a, b)
        v = o.get("v", [10, 10])
        if o["kind"] in ("vessel", "mvessel"):
            cids = list(o["cont"])
            level = sum(self.level_at(node["mover"], c, p.start.seq) for c in cids)
            cap = sum(o["cont"][c][0] for c in cids)
            speed = speed_fn(v)(level / cap)
        else:
            speed = v[0]
        return dist / (speed * node.get("eo", 1))

    def check_shift(self, inst, node, p):
        cid = node.get("cid", "default")
        org, dst = node["org"], node["dst"]
        gets = [m for m in inst.moves if m[2] == org and m[3] == cid and m[4] < 0]
        puts = [m for m in inst.moves if m[2] == dst and m[3] == cid and m[4] > 0]
        if self.dust(inst, node, p) and all(abs(m[4]) <= 1e-9 for m in inst.moves):
            return
        if len(gets) != 1 or len(puts) != 1 or len(inst.moves) != 2:
            self.bad("mass", "%s made level changes %s", inst, inst.moves)
            return
        x, y = -gets[0][4], puts[0][4]
        if not near(x, y, 1e-9):
            self.bad("mass", "%s took %s and delivered %s", inst, x, y)
        if node.get("amt") is not None and x > node["amt"] + 1e-9:
            self.bad("amount", "%s moved %s, at most %s was asked for", inst, x, node["amt"])
        want = self.shift_durations(node, p, x)
        took = puts[0][1] - gets[0][1]
        if not any(near(took, v) for v in want):
            if not any(
                took > v and self.waited_for_space(dst, cid, puts[0], x, gets[0][1] + v)
                for v in want
            ):
                self.bad("duration", "%s took %s instead of %s", inst, took, want)
        if not near(puts[0][1], p.stop.t):
            self.bad("duration", "%s delivered at %s, STOP %s", inst, puts[0][1], p.stop.t)
        if not near(gets[0][1], p.start.t):
            if not self.waited_for_content(org, cid, gets[0], x, p.start.t):
                self.bad("duration", "%s took content at %s, START %s", inst, gets[0][1], p.start.t)
        self.check_amount(inst, node, p, gets[0], x)

    def shift_durations(self, node, p, x):
        """The durations of a transfer of x that its processor may have worked out."""
        if node.get("dur") is not None:
            return [node["dur"]]
        cid = node.get("cid", "default")
        o = self.w.sc["objs"][node["proc"]]
        load = node["phase"] == "loading"
        rate = rate_fn(o.get("lr" if load else "ur", 1))
        man = o.get("lm" if load else "um", 0) * 60
        if not callable(rate):
            return [x / rate + man]
        if load:
            return [rate(v, v + x) + man for v in self.levels_in_instant(node["dst"], cid, p.start)]
        return [rate(v, v - x) + man for v in self.levels_in_instant(node["org"], cid, p.start)]

    def dust(self, inst, node, p):
        """A transfer of a rounding error, which need not change a level visibly."""
        if p.start is None:
            return False
        cid = node.get("cid", "default")
        org, dst = node["org"], node["dst"]
        at = p.start.seq
        if inst.moves:
            at = min(at, inst.moves[0][0] - 1)
        return (
            self.level_at(org, cid, at) <= 1e-9
            or self.cap(dst, cid) - self.level_at(dst, cid, at) <= 1e-9
        )

    def levels_in_instant(self, obj, cid, entry):
        """Every level seen in the instant of an entry (and the one it began with)."""
        out = []
        hist = self.history(obj, cid)
        for i, rec in enumerate(hist):
            nxt = hist[i + 1][1] if i + 1 < len(hist) else INF
            if rec[1] <= entry.now and nxt >= entry.now:
                out.append(rec[2])
        return out

    def waited_for_space(self, dst, cid, put, x, since):
        """True when the space was missing at the end of each instant in [since, put)."""
        cap = self.cap(dst, cid)
        return self._lacked(dst, cid, since, put[1], lambda lv: cap - lv < x - 1e-9)

    def waited_for_content(self, org, cid, get, x, since):
        return self._lacked(org, cid, since, get[1], lambda lv: lv < x - 1e-9)

    def _lacked(self, obj, cid, since, until, test):
        hist = self.history(obj, cid)
        any_ = False
        for i, rec in enumerate(hist):
            nxt = hist[i + 1][1] if i + 1 < len(hist) else INF
            a, b = max(rec[1], since), min(nxt, until)
            if b > a + EPS:
                any_ = True
                if not test(rec[2]):
                    return False
        return any_

    def begin_of(self, inst, p):
        node = self.w.nodes[inst.name]
        pinst, sib, ready, ready_seq = self.context(inst)
        if p.wait:
            return p.wait[1].t, p.wait[1].seq
        return ready, ready_seq

    def check_amount(self, inst, node, p, get, x):
        """The amount is min(requested, available, free) at a moment at which it was decided."""
        cid = node.get("cid", "default")
        org, dst = node["org"], node["dst"]
        begin, begin_seq = self.begin_of(inst, p)
        cap = self.cap(dst, cid)
        ask = node["amt"] if node.get("amt") is not None else INF
        since = self.acquired(inst, dst, begin_seq, get[0])
        marks = {since}
        for o in (org, dst):
            for rec in self.history(o, cid):
                if since <= rec[0] < get[0]:
                    marks.add(rec[0])
        cands = []
        for m in sorted(marks):
            lo, ld = self.level_at(org, cid, m), self.level_at(dst, cid, m)
            cands.append(min(ask, lo, cap - ld))
        if not any(near(x, c, 1e-9) for c in cands):
            self.bad("amount", "%s moved %s, expected one of %s", inst, x, cands)
        if x > get[5] + 1e-9:
            self.bad("amount", "%s took %s from %s", inst, x, get[5])

    def acquired(self, inst, obj, since, until):
        """Event number at which the execution (or its group) held a slot of obj."""
        grp = self.group(inst.name)
        out = since
        holding = False
        for seq, t, owners in self.r.users[obj]:
            if seq > until:
                break
            has = any(isinstance(o, Inst) and self.group(o.name) == grp for o in owners)
            if has and not holding and seq > since:
                out = seq
            holding = has
        return out

    def group(self, name):
        return self.w.nodes[name].get("_grp")

    # -- structure -------------------------------------------------------
    def check_structure(self, inst, node, p):
        kids = self.children(inst)
        names = [s["n"] for s in node["subs"]]
        ids = {n: self.w.acts[n].id for n in names}
        if p.start is None:
            return
        done = p.stop is not None
        t = node["t"]
        code = {"seq": "seqorder", "par": "parallel"}.get(t, "loop")
        if t == "par":
            for n in names:
                if len(kids[n]) != 1:
                    self.bad(code, "%s ran %s %d times", inst, n, len(kids[n]))
                    return
            ends = [self.done_t(kids[n][0]) for n in names]
            failed = [n for n in names if self.failed(kids[n][0])]
            if done and not failed and (max(ends) == INF or not near(p.stop.t, max(ends))):
                self.bad(code, "%s stopped at %s, its activities at %s", inst, p.stop.t, ends)
            want = sorted(
                [("START", ids[n], p.start.t) for n in names]
                + [
                    ("STOP", ids[n], self.done_t(kids[n][0]))
                    for n in names
                    if self.done_t(kids[n][0]) < INF
                ]
            )
        else:
            m = max(len(kids[n]) for n in names)
            if t == "seq" and m != 1:
                self.bad(code, "%s ran its activities %d times", inst, m)
                return
            want = []
            at = p.start.t
            ends = []
            complete = True
            for j in range(m):
                if any(len(kids[n]) <= j for n in names):
                    self.bad(code, "%s: incomplete iteration %d", inst, j + 1)
                    return
                first = kids[names[0]][j]
                if j and not near(first.reg_t, at):
                    self.bad("loop", "%s: iteration %d at %s, previous ended %s", inst, j + 1, first.reg_t, at)
                for n in names:
                    want.append(("START", ids[n], at))
                    end = self.done_t(kids[n][j])
                    if end == INF:
                        complete = False
                        break
                    want.append(("STOP", ids[n], end))
                    at = end
                if not complete:
                    if j + 1 < m:
                        self.bad(code, "%s went on before iteration %d ended", inst, j + 1)
                        return
                    break
                ends.append((at, kids[names[-1]][j]))
            if done:
                if not complete:
                    self.bad(code, "%s stopped at %s before its activities", inst, p.stop.t)
                    return
                if not near(p.stop.t, at):
                    self.bad(code, "%s stopped at %s, its last activity at %s", inst, p.stop.t, at)
            if t in ("while", "repeat"):
                self.check_iterations(inst, node, p, ends, m, done)
        have = [(e.state, e.label.get("ref"), e.t) for e in p.sub]
        # entries of one instant may come in any order; a running execution may lag behind
        if t == "par" and failed:
            # an error is on its way, within this instant the end of the activity may show
            maybe = [("STOP", ids[n], kids[n][0].done_t) for n in failed]
            have = [h for h in have if not any(h[:2] == m[:2] and near(h[2], m[2]) for m in maybe)]
        if not same_entries(have, want, partial=not done or (t == "par" and failed)):
            self.bad("records", "%s: sub process entries %s, expected %s", inst, have, want)

    def check_iterations(self, inst, node, p, ends, m, done):
        if node["t"] == "repeat":
            k = node["k"]
            if done and len(ends) != max(k, 1):
                self.bad("loop", "%s ran %d iterations instead of %d", inst, len(ends), k)
            if m > max(k, 1):
                self.bad("loop", "%s started iteration %d of %d", inst, m, k)
            return
        lo, hi = self.occurs(node["cond"], p.start.seq, p.start.t)
        for j, (end, last) in enumerate(ends):
            goes_on = m > j + 1
            stops = done and j + 1 == len(ends)
            must_stop = hi < end - EPS or (
                near(hi, end) and hi < INF and self.own_cause(node, inst, end)
            )
            must_go = lo > end + EPS
            if must_stop and goes_on:
                self.bad(
                    "loop", "%s went on after iteration %d (%s), condition met at %s",
                    inst, j + 1, end, hi,
                )
                return
            if must_go and stops:
                self.bad(
                    "loop", "%s stopped after iteration %d (%s), condition not met before %s",
                    inst, j + 1, end, lo,
                )
                return

    def own_cause(self, node, inst, end):
        """The condition became true at `end` by an action of the loop's own activities only.

        Only then is the order of the two within one instant fixed.
        """
        own = {n["n"] for n in _walk(node["subs"])}
        for leaf in leaves(node["cond"]):
            if "time" in leaf or "ev" in leaf:
                return False
            if "act" in leaf or "actid" in leaf:
                if any(n not in own for n in self.meant(leaf)):
                    return False
            if "c" in leaf:
                obj, op, level, cid = leaf["c"]
                for rec in self.history(obj, cid):
                    if near(rec[1], end):
                        if not (isinstance(rec[4], Inst) and rec[4].name in own):
                            return False
        return True

    # -- the logs of the objects -----------------------------------------
    def check_object_logs(self):
        w = self.w
        want = {n: [] for n in w.objs}
        waited = {n: [] for n in w.objs}  # waits within transfers
        maybe = {n: [] for n in w.objs}
        for name, insts in self.r.insts.items():
            node = w.nodes[name]
            aid = w.acts[name].id
            for inst in insts:
                p = self.parse(inst)
                if p.bad:
                    return
                objs, label = (), {}
                if node["t"] == "move":
                    objs = (node["mover"],)
                elif node["t"] == "shift":
                    objs = {node["proc"], node["org"], node["dst"]}
                elif node["t"] == "basic":
                    objs = node.get("alog") or ()
                    label = {"type": "additional log", "ref": aid}
                for o in objs:
                    if p.start is not None:
                        item = ("START", aid, p.start.t, label)
                        # an execution that failed right away may not have come to it
                        (maybe if self.failed(inst) and near(inst.done_t, p.start.t) else want)[o].append(item)
                    if p.stop is not None:
                        want[o].append(("STOP", aid, p.stop.t, label))
                if node["t"] == "basic" and p.wait:
                    for o in objs:
                        want[o].append(("WAIT_START", aid, p.wait[0].t, label))
                        want[o].append(("WAIT_STOP", aid, p.wait[1].t, label))
                if node["t"] == "shift" and p.start is not None:
                    # waiting for content or space while the transfer is going on
                    gets = [m for m in inst.moves if m[4] < 0]
                    puts = [m for m in inst.moves if m[4] > 0]
                    if len(gets) != 1 or len(puts) > 1:
                        continue  # still waiting, or a problem reported elsewhere
                    get = gets[0]
                    waits = [(node["org"], [p.start.t], get[1])]
                    if puts:
                        ends = [get[1] + d for d in self.shift_durations(node, p, -get[4])]
                        waits.append((node["dst"], ends, puts[0][1]))
                    elif p.stop is not None:
                        # the rounding error put into the destination is not visible there
                        ends = [get[1] + d for d in self.shift_durations(node, p, -get[4])]
                        waits.append((node["dst"], ends, p.stop.t))
                    for obj, begins, end in waits:
                        # a run that ended with an error may not have come to the entries
                        cut = self.truncated and near(end, w.env.now)
                        if (
                            not cut
                            and not self.dust(inst, node, p)
                            and min(end - x for x in begins) > EPS
                        ):
                            waited[node["proc"]].append((aid, obj, begins, end, True))
                        else:
                            waited[node["proc"]].append((aid, obj, begins, end, False))
        for n, obj in w.objs.items():
            have = [
                (e.state, e.act_id, e.t, e.label)
                for e in self.r.entries
                if e.obj == n
            ]
            rest = list(have)
            for item in want[n]:
                for h in rest:
                    if h[0] == item[0] and h[1] == item[1] and h[3] == item[3] and near(h[2], item[2]):
                        rest.remove(h)
                        break
                else:
                    self.bad("records", "the log of %s misses %s", n, item)
                    return
            for item in maybe[n]:
                hit = [h for h in rest if h[:2] == item[:2] and h[3] == item[3] and near(h[2], item[2])]
                if hit:
                    rest.remove(hit[0])
            for aid, obj, begins, end, must in waited[n]:
                lab = {"type": "subprocess", "ref": "waiting %s content" % obj}
                mine = [h for h in rest if h[1] == aid and h[3] == lab]
                stops = [h for h in mine if h[0] == "WAIT_STOP" and near(h[2], end)]
                starts = [
                    h for h in mine
                    if h[0] == "WAIT_START" and any(near(h[2], x) for x in begins)
                ]
                if starts and stops:
                    rest.remove(starts[0])
                    rest.remove(stops[0])
                elif must:
                    self.bad(
                        "records", "the log of %s does not show that it waited for %s from %s to %s",
                        n, obj, begins, end,
                    )
                    return
            if rest:
                self.bad("records", "the log of %s has an unexplained entry %s", n, rest[0])
                return

    # -- content ---------------------------------------------------------
    def check_changes(self):
        exo = list(self.r.exo)
        for (obj, cid), hist in self.r.levels.items():
            cap = self.cap(obj, cid)
            for prev, rec in zip(hist, hist[1:]):
                seq, t, level, res, who = rec
                delta = level - prev[2]
                if level < -1e-9 or level > cap + 1e-9:
                    self.bad("bounds", "%s/%s: level %s outside [0, %s] by %s", obj, cid, level, cap, who, t=t)
                if delta == 0:
                    continue
                if isinstance(who, Inst):
                    node = self.w.nodes[who.name]
                    ok = node["t"] == "shift" and cid == node.get("cid", "default") and (
                        (obj == node["org"] and delta < 0) or (obj == node["dst"] and delta > 0)
                    )
                    if not ok:
                        self.bad("mass", "%s changed %s/%s by %s", who, obj, cid, delta, t=t)
                elif who is not None and who[0] == "actor":
                    hit = [e for e in exo if e[2] == obj and e[3] == cid and near(e[4], delta, 1e-9)]
                    if not hit:
                        self.bad("mass", "%s/%s: put/get changed the level by %s", obj, cid, delta, t=t)
                    else:
                        exo.remove(hit[0])
                else:
                    self.bad("mass", "%s/%s changed by %s without an activity", obj, cid, delta, t=t)
        for e in exo:
            self.bad("mass", "put/get of %s on %s/%s did not change the level", e[4], e[2], e[3], t=e[1])
        # conservation as a whole
        cids = {c for _, c in self.r.levels}
        for c in cids:
            total0 = sum(h[0][2] for (o, k), h in self.r.levels.items() if k == c)
            total1 = sum(h[-1][2] for (o, k), h in self.r.levels.items() if k == c)
            outside = sum(e[4] for e in self.r.exo if e[3] == c)
            transit = 0
            for name, insts in self.r.insts.items():
                if self.w.nodes[name]["t"] == "shift" and self.w.nodes[name].get("cid", "default") == c:
                    for i in insts:
                        p = self.parse(i)
                        if p.stop is None:
                            transit -= sum(m[4] for m in i.moves)
            if not near(total0 + outside, total1 + transit, 1e-6):
                self.bad(
                    "mass", "content %s: %s at the start, %s added, %s now, %s in transfer",
                    c, total0, outside, total1, transit,
                )

    # -- resources -------------------------------------------------------
    def used(self, node):
        if node["t"] == "move":
            return [node["mover"]]
        if node["t"] == "shift":
            return sorted({node["proc"], node["org"], node["dst"]})
        return []

    def check_resources(self):
        w = self.w
        # timeline of holders per object: group -> held
        for n in self.r.users:
            slots = w.sc["objs"][n].get("slots", 1)
            for seq, t, owners in self.r.users[n]:
                if len(owners) > slots:
                    self.bad("slots", "%s: %d users of %d slots", n, len(owners), slots, t=t)
                for o in owners:
                    if isinstance(o, Inst) and n not in self.used(w.nodes[o.name]):
                        self.bad("slots", "%s holds %s, which it does not use", o, n, t=t)
        spans = {n: [] for n in self.r.users}
        model = {}  # (group, obj) -> seq from which it must be held
        acts = []
        for name, insts in self.r.insts.items():
            if self.used(w.nodes[name]):
                for i in insts:
                    acts.append(i)
        for i in acts:
            node = w.nodes[i.name]
            p = self.parse(i)
            if p.start is None:
                continue
            end = i.done_seq if (i.done_seq is not None and i.ok) else INF
            if i.done_seq is not None and not i.ok:
                end = i.done_seq
            first = p.pre[0][0].seq if p.pre else p.start.seq
            for obj in self.used(node):
                spans[obj].append((first, end, i))
                if not self.held(obj, self.group(i.name), first, end):
                    self.bad("slots", "%s used %s without holding it throughout", i, obj, t=p.start.t)
        # overlapping use of an object by different groups
        for obj, sp in spans.items():
            slots = w.sc["objs"][obj].get("slots", 1)
            marks = sorted({s for s, e, i in sp})
            for m in marks:
                users = {self.group(i.name) for s, e, i in sp if s <= m < e}
                if len(users) > slots:
                    self.bad("slots", "%s is used by %d activities, %d slots: %s", obj, len(users), slots,
                             [i for s, e, i in sp if s <= m < e])
        self.check_release(acts)

    def held(self, obj, grp, a, b):
        """A request of the group is a user of obj in every state with seq in [a, b)."""
        cur = False
        for seq, t, owners in self.r.users[obj]:
            if seq >= b:
                break
            has = any(isinstance(o, Inst) and self.group(o.name) == grp for o in owners)
            if seq <= a:
                cur = has
                continue
            if not cur:
                return False
            cur = has
        return cur

    def holders(self, obj, grp, seq):
        cur = ()
        for s, t, owners in self.r.users[obj]:
            if s > seq:
                break
            cur = owners
        return [o for o in cur if isinstance(o, Inst) and self.group(o.name) == grp]

    def check_release(self, acts):
        w = self.w
        groups = {}
        for i in acts:
            groups.setdefault(self.group(i.name), []).append(i)
        for grp, insts in groups.items():
            names = {i.name for i in insts}
            overlapping = False
            insts = sorted(insts, key=lambda i: (self.parse(i).start.seq if self.parse(i).start else INF))
            for a, b in zip(insts, insts[1:]):
                pb = self.parse(b)
                if pb.start is None:
                    continue
                if self.done_seq(a) > pb.start.seq:
                    overlapping = True
            if overlapping:
                continue  # the group shares its slots among concurrent activities
            kept = {}  # obj -> seq since which the group keeps it
            for i in insts:
                if i.done_seq is None or not i.ok:
                    break
                node = w.nodes[i.name]
                end = i.done_seq
                for obj in self.used(node):
                    holders = self.holders(obj, grp, end)
                    if obj in kept:
                        p = self.parse(i)
                        first = p.start.seq
                        if not self.held(obj, grp, kept[obj], first):
                            self.bad("release", "%s was kept by %s but given away before %s", obj, grp, i)
                        del kept[obj]
                    if obj in (node.get("keep") or ()):
                        if len(holders) != 1:
                            self.bad("release", "%s keeps %s, holders %s", i, obj, holders, t=i.done_t)
                        kept[obj] = end
                    elif holders:
                        self.bad("release", "%s finished and still holds %s: %s", i, obj, holders, t=i.done_t)
            for obj, since in kept.items():
                later = [i for i in insts if i.done_seq is None or i.done_seq > since]
                running = any(obj in self.used(w.nodes[i.name]) for i in later)
                if not running and not self.held(obj, grp, since, INF):
                    self.bad("release", "%s was kept by %s but given away", obj, grp)

    # -- movement --------------------------------------------------------
    def check_movement(self):
        w = self.w
        moves = {}
        for name, insts in self.r.insts.items():
            node = w.nodes[name]
            if node["t"] != "move":
                continue
            for i in insts:
                p = self.parse(i)
                if p.stop is None:
                    continue
                dest = self.pos_at(node["dest"], p.stop.seq)
                here = self.pos_at(node["mover"], p.stop.seq)
                if dest != here:
                    self.bad("location", "%s: %s is at %s, not at %s", i, node["mover"], here, dest)
                moves.setdefault(node["mover"], []).append((p.start.seq, p.stop.seq, i))
        for obj, hist in self.r.geoms.items():
            for prev, rec in zip(hist, hist[1:]):
                seq, t, xy, who = rec
                if xy == prev[2]:
                    continue
                if not isinstance(who, Inst) or w.nodes[who.name]["t"] != "move" or w.nodes[who.name]["mover"] != obj:
                    self.bad("location", "%s was moved by %s", obj, who, t=t)
                    continue
                p = self.parse(who)
                if p.stop is None or p.stop.seq != seq:
                    self.bad("location", "%s moved before %s ended", obj, who, t=t)
        # the mover's own log shows departure and arrival
        for e in self.r.entries:
            if e.obj not in self.r.geoms or e.copy[5] is None:
                continue
            name = self.r.id2act.get(e.act_id)
            if name is None or w.nodes[name]["t"] != "move":
                continue
            if e.state in ("START", "STOP"):
                seq = e.seq - 1 if e.state == "START" else e.seq
                if e.copy[5] != self.pos_at(e.obj, seq):
                    self.bad("location", "%s logged %r at %s", e.obj, e, e.copy[5])
        # a shift happens where its parties are
        for name, insts in self.r.insts.items():
            node = w.nodes[name]
            if node["t"] != "shift":
                continue
            for i in insts:
                p = self.parse(i)
                if p.start is None or self.failed(i):
                    continue
                a, b, c = (self.pos_at(node[k], p.start.seq) for k in ("proc", "org", "dst"))
                if geodesic(a, b) > 100 or geodesic(b, c) > 100:
                    self.bad("location", "%s started with its parties apart", i)

    # -- subscribers -----------------------------------------------------
    def check_subscribers(self):
        for rec in self.w.subs:
            spec = rec["spec"]
            seq, t = rec["asked"]
            lo, hi = self.occurs_level(
                (spec["obj"], spec["op"], spec.get("level"), spec.get("cid", "default")), seq, t
            )
            end = self.w.env.now
            if rec["woken"] is None:
                if hi < end - EPS and not self.truncated:
                    self.bad("cevent", "subscriber %s missed the level reached at %s", spec, hi)
            elif not (lo - EPS <= rec["woken"][1] <= hi + EPS):
                self.bad("cevent", "subscriber %s woken at %s, level reached in [%s, %s]",
                         spec, rec["woken"][1], lo, hi)

    # -- immutable history ------------------------------------------------
    def check_immutable(self):
        pos = {}
        last = {}
        for e in self.r.entries:
            i = pos.get(e.obj, 0)
            pos[e.obj] = i + 1
            thing = self.w.objs.get(e.obj) or self.w.acts.get(e.obj)
            book = thing.logbook
            if i >= len(book) or book[i] is not e.raw and freeze(book[i]) != e.copy:
                self.bad("history", "entry %d of %s was replaced", i, e.obj)
                return
            if freeze(e.raw) != e.copy:
                self.bad("history", "entry %d of %s changed: %s -> %s", i, e.obj, e.copy, freeze(e.raw))
                return
            if e.t > e.now + EPS:
                self.bad("history", "%s: %r recorded at %s", e.obj, e, e.now)
            if e.actual is not None:
                state, now = e.actual
                lv = state.get("levels")
                if lv is not None and len(lv) == 1 and not isinstance(e.copy[4], tuple):
                    if e.copy[4] != list(lv.values())[0]:
                        self.bad("history", "%s logged level %s, was %s", e.obj, e.copy[4], lv)
                elif lv is not None:
                    if e.copy[4] != tuple(sorted(lv.items())):
                        self.bad("history", "%s logged level %s, was %s", e.obj, e.copy[4], lv)
                if state.get("geom") is not None and e.copy[5] != state["geom"]:
                    self.bad("history", "%s logged location %s, was %s", e.obj, e.copy[5], state["geom"])
            # a record is made at the moment it describes (waits afterwards)
            if e.state in ("START", "STOP") and not near(e.t, e.now):
                self.bad("history", "%s: %r recorded at %s", e.obj, e, e.now)

    # ------------------------------------------------------------------
    # while the run proceeds
    def install(self):
        self.r.settle_monitors.append(self.at_settle)

    def at_settle(self):
        self.check_reservations()
        self.check_waiting()

    def check_reservations(self):
        r, w = self.r, self.w
        pend, skip = {}, set()
        for name, insts in r.insts.items():
            node = w.nodes[name]
            if node["t"] != "shift" or not insts:
                continue
            cid = node.get("cid", "default")
            org, dst = node["org"], node["dst"]
            amt = node["amt"] if node.get("amt") else min(self.cap(org, cid), self.cap(dst, cid))
            i = insts[-1]
            if self.dust(i, node, self.parse(i)):
                skip |= {(org, cid), (dst, cid)}
            if not any(m[4] < 0 for m in i.moves):
                pend[org, cid] = pend.get((org, cid), 0) - amt
            if not any(m[4] > 0 for m in i.moves):
                pend[dst, cid] = pend.get((dst, cid), 0) + amt
        for key, (level, res) in r._last_lv.items():
            want = level + pend.get(key, 0) - r.bare.get(key, 0)
            if key not in skip and not near(res, want, 1e-6):
                self.bad("reserve", "%s/%s: level %s, open reservations %s, booked %s", key[0], key[1], level, pend.get(key, 0), res)

    def check_waiting(self):
        """When the clock is about to advance, whoever is not busy must have a reason."""
        r, w = self.r, self.w
        now = w.env.now
        for name, inst in list(r.open.items()):
            node = w.nodes[name]
            p = self.parse(inst)
            if p.bad:
                continue
            pinst, sib, ready, ready_seq = self.context(inst)
            if ready > now + EPS:
                continue
            if not inst.entries or (p.start is None and not p.pre):
                lo, hi = self.occurs(node.get("se"), inst.reg_seq, inst.reg_t)
                if not p.wait and max(hi, ready) > now:
                    continue
                if self.blocked(inst, node, now):
                    continue
                self.bad("idle", "%s has nothing to wait for", inst)
                continue
            if p.start is None:
                a, b = p.pre[-1]
                if b is None:
                    continue
                self.bad("idle", "%s: the last wait ended at %s, not started", inst, b.t)
                continue
            if p.stop is None:
                t = node["t"]
                if t == "basic":
                    if p.start.now + node["dur"] > now - EPS:
                        continue
                    self.bad("idle", "%s should have ended at %s", inst, p.start.t + node["dur"])
                elif t == "move":
                    if p.start.now + self.move_duration(inst, node, p) > now - 1e-3:
                        continue
                    self.bad("idle", "%s should have arrived", inst)
                elif t == "shift":
                    self.settle_shift(inst, node, p, now)
                else:
                    kids = self.children(inst)
                    if any(k[-1].done_seq is None for k in kids.values() if k):
                        continue
                    self.bad("idle", "%s goes on after its activities", inst)
                continue
            if p.post and p.post[-1][1] is None:
                continue
            self.bad("idle", "%s stopped but did not finish", inst)

    def blocked(self, inst, node, now):
        """A move or shift whose turn has come may wait for a slot."""
        if node["t"] not in ("move", "shift"):
            return False
        proc = self.w.acts[inst.name].main_process
        for obj in self.used(node):
            res = self.w.objs[obj].resource
            for req in res.queue:
                if req.proc is proc:
                    grp = self.group(inst.name)
                    if grp is not None and self.holders(obj, grp, INF):
                        self.bad("release", "%s waits for %s, which was kept for it", inst, obj)
                    return len(res.users) >= self.w.sc["objs"][obj].get("slots", 1)
        # the amount of a shift is decided anew until it starts, and there is always something
        # to take and some room for it: it is an error to try when there is not
        return False

    def settle_shift(self, inst, node, p, now):
        cid = node.get("cid", "default")
        gets = [m for m in inst.moves if m[4] < 0]
        if self.dust(inst, node, p):
            return
        if not gets:
            ask = node.get("amt") or INF
            level = self.w.objs[node["org"]].container.get_level(cid)
            if level >= min(ask, self.cap(node["org"], cid), self.cap(node["dst"], cid)):
                self.bad("idle", "%s does not take the content that is there", inst)
            return
        x = -gets[0][4]
        if node.get("dur") is not None:
            end = gets[0][1] + node["dur"]
        else:
            o = self.w.sc["objs"][node["proc"]]
            load = node["phase"] == "loading"
            rate = rate_fn(o.get("lr" if load else "ur", 1))
            if callable(rate):
                return
            end = gets[0][1] + x / rate + o.get("lm" if load else "um", 0) * 60
        if end > now - EPS:
            return
        free = self.cap(node["dst"], cid) - self.w.objs[node["dst"]].container.get_level(cid)
        if free >= x:
            self.bad("idle", "%s does not deliver although there is space", inst)


def _walk(nodes):
    for node in nodes:
        yield node
        yield from _walk(node.get("subs", ()))


def leaves(e):
    if e is None:
        return
    if isinstance(e, list):
        for x in e:
            yield from leaves(x)
    elif "and" in e or "or" in e:
        for x in e.get("and", e.get("or")):
            yield from leaves(x)
    else:
        yield e


def same_entries(have, want, partial):
    rest = list(want)
    for h in have:
        for x in rest:
            if x[0] == h[0] and x[1] == h[1] and near(x[2], h[2]):
                rest.remove(x)
                break
        else:
            return False
    if partial:
        # what is missing can only be of the last instant
        if not rest:
            return True
        last = max([h[2] for h in have], default=None)
        return all(last is None or x[2] >= last - EPS for x in rest)
    return not rest


# ----------------------------------------------------------------------
# weather: an independent model of workable windows
def exact(x):
    return x * 1024 == int(x * 1024)


def weather_start(spec, t):
    """(earliest, latest) admissible start for work that wants to begin at t.

    Samples hold until the next one.  Work that starts at s needs good weather from
    s + delay to s + delay + length, inside one repetition of the dataset.
    """
    ts, val = spec["ts"], spec["val"]
    good = [v <= spec["max"] if "max" in spec else v >= spec["min"] for v in val]
    start, stop = ts[0], ts[-1]
    period = stop - start
    length, delay = spec["wl"], spec.get("wd", 0)
    if all(good):
        runs = [(start, stop)]
        strict = loose = [(start, stop)]
    else:
        runs = []
        a = None
        for x, g in zip(ts, good):
            if g and a is None:
                a = x
            if not g and a is not None:
                runs.append((a, x))
                a = None
        if a is not None:
            runs.append((a, stop))
        strict = [(a - delay, b - length - delay) for a, b in runs if b - a > length + 1e-9]
        loose = [(a - delay, b - length - delay) for a, b in runs if b - a >= length - 1e-9]

    def first(windows, slack):
        if not windows:
            return None
        # the dataset repeats for as long as it takes
        most = max(0, math.ceil((t - min(b for _, b in windows)) / period)) + 2 if period > 0 else 1
        for i in range(0, most):
            for a, b in windows:
                end = b + i * period
                if end >= t + slack or end == t and exact(t) and exact(end):
                    return max(t, a + i * period)
        return None

    # at the very end of a window both answers are right, unless there was nothing to round
    hi = first(strict, 2e-6)
    if hi is None:
        return None, None
    lo = first(loose, -2e-6)
    return min(lo, hi), hi
