"""Execute one scenario and judge it."""

import hashlib
import signal
import warnings

warnings.filterwarnings("ignore")

from .build import InjectedFault, World, walk  # noqa: E402
from .env import StepCap  # noqa: E402
from .record import Recorder  # noqa: E402
from .spec import Spec, near  # noqa: E402


class Hang(BaseException):
    """The process used up its CPU budget inside one run."""


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


class cpu_guard:
    """Interrupt a run that burns CPU without letting the simulator step."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def onalarm(sig, frame):
            raise Hang("no progress in %s CPU seconds" % self.seconds)

        self.old = signal.signal(signal.SIGVTALRM, onalarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)


def in_repo(exc):
    """Whether the traceback of an exception ends in the code under test (or below it)."""
    frames = []
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            frames.append(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        exc = exc.__cause__
    return any("/openclsim/" in f for f in frames)


class Run:
    """One executed scenario."""

    def __init__(self, sc, recorder=True, observe=None, checks=True):
        self.sc = sc
        self.rec = Recorder() if recorder else None
        self.error = None
        self.capped = False
        self.checks = checks
        self.legit_error = False
        self.world = World(sc, self.rec)
        self.spec = Spec(self.world) if self.rec else None
        if self.spec and checks:
            self.spec.install()
        self.observer = observe
        self.end = self.world.t0 + sc.get("horizon", 1000)

    # -- running ---------------------------------------------------------
    def go(self):
        w = self.world
        try:
            w.start()
            for op in self.sc.get("ops", ()):
                if "until" in op:
                    target = w.t0 + op["until"]
                    if w.env.now < target < self.end:
                        w.env.run(until=target)
                        w.fired("pause")
                elif "steps" in op:
                    for _ in range(op["steps"]):
                        if w.env.peek() >= self.end and not w.env._tie_pend:
                            break
                        w.env.step()
                    w.fired("pause")
                elif self.observer is not None:
                    self.observer(w, op)
                    w.fired("observe")
            w.env.run(until=self.end)
        except StepCap:
            self.capped = True
        except (Hang, HarnessError):
            raise
        except Exception as e:  # noqa: BLE001
            self.error = e
        return self

    def judge(self):
        """Classify the error, then run the checks over the history."""
        w, rec, spec = self.world, self.rec, self.spec
        rec.observe(None)
        if self.error is not None:
            self.judge_error()
        spec.truncated = self.error is not None or self.capped
        if self.checks and not (self.error is not None and not self.legit_error):
            spec.check_all()
        return rec.problems

    def failing(self):
        """The execution in which the error arose."""
        chain = []
        e = self.error
        while e is not None:
            chain.append(e)
            e = e.__cause__
        failed = [
            i
            for insts in self.rec.insts.values()
            for i in insts
            if i.done_seq is not None and not i.ok and any(i.exc is c for c in chain)
        ]
        return min(failed, key=lambda i: i.done_seq, default=None)

    def place(self, name, seq):
        """Where an object was at the end of a step (it may have moved on since)."""
        xy = [p for s, _, p, _ in self.rec.geoms.get(name, ()) if s <= seq]
        if xy:
            return xy[-1]
        g = self.world.objs[name].geometry
        return g.x, g.y

    def judge_error(self):
        e, w = self.error, self.world
        root = e
        while root.__cause__ is not None:
            root = root.__cause__
        inst = self.failing()
        if w.raised:
            if str(root.args[0] if root.args else "").startswith("injected-"):
                self.legit_error = True
                w.fired("error_surfaced")
                return
        if inst is not None:
            node = w.nodes[inst.name]
            if node["t"] == "shift":
                cid = node.get("cid", "default")
                org, dst = w.objs[node["org"]], w.objs[node["dst"]]
                # as it was when the execution gave up
                level = self.spec.level_at(node["org"], cid, inst.done_seq)
                free = dst.container.get_capacity(cid) - self.spec.level_at(
                    node["dst"], cid, inst.done_seq
                )
                if isinstance(root, ValueError) and (level <= 0 or free <= 0):
                    self.legit_error = True
                    w.fired("nothing_to_move")
                    return
                if isinstance(root, AssertionError):
                    from .spec import geodesic

                    xy = [self.place(n, inst.done_seq) for n in (node["proc"], node["org"], node["dst"])]
                    if geodesic(xy[0], xy[1]) > 90 or geodesic(xy[1], xy[2]) > 90:
                        self.legit_error = True
                        w.fired("not_at_location")
                        return
            for spec in node.get("plug", ()):
                if spec["p"] == "weather" and isinstance(root, IndexError):
                    from .spec import weather_start

                    if weather_start(spec, w.env.now - w.t0)[1] is None:
                        self.legit_error = True
                        w.fired("no_workable_weather")
                        return
        if not in_repo(e) and not in_simpy(e):
            raise HarnessError("error outside the code under test: %r" % e) from e
        self.rec.problem("crash", "%s: %s: %s" % (inst, type(root).__name__, str(root)[:200]))

    # -- summaries -------------------------------------------------------
    def digest(self):
        """A hash of the complete history (what was observed, in which order)."""
        return digest(self.rec)

    def shape(self):
        """A hash of the interleaving: the order of activity events without times."""
        h = hashlib.sha1()
        for e in self.rec.entries:
            if e.obj in self.world.acts:
                h.update(("%s %s %s|" % (e.obj, e.state, e.label.get("ref", ""))).encode())
        return h.hexdigest()[:16]

    def stats(self):
        w = self.world
        return {
            "steps": w.env.step_count,
            "simtime": w.env.now - w.t0,
            "ties": w.env.tie_points,
            "permuted": sum(1 for c in w.env.tie_log if c),
            "instances": sum(len(i) for i in self.rec.insts.values()),
            "finished": sum(
                1 for i in self.rec.insts.values() for x in i if x.done_seq is not None and x.ok
            ),
            "transfers": sum(len(i.moves) for v in self.rec.insts.values() for i in v),
            "counts": dict(w.counts),
            "capped": self.capped,
            "error": self.legit_error,
        }


def in_simpy(exc):
    frames = []
    while exc is not None:
        tb = exc.__traceback__
        while tb is not None:
            frames.append(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        exc = exc.__cause__
    return bool(frames) and "/simpy/" in frames[-1]


def history(rec, t0=0):
    """The history in a comparable form, ids replaced by names."""
    w = rec.world
    names = {a.id: n for n, a in w.acts.items()}
    names.update({o.id: n for n, o in w.objs.items()})
    out = []
    for e in rec.entries:
        lab = {k: names.get(v, v) for k, v in e.label.items()}
        out.append(
            (
                e.obj,
                names.get(e.act_id, e.act_id),
                e.state,
                tuple(sorted(lab.items())),
                round(e.t - t0, 5),
                e.copy[4],
                e.copy[5],
            )
        )
    return out


def per_object(rec, t0=0):
    out = {}
    for item in history(rec, t0):
        out.setdefault(item[0], []).append(item[1:])
    return out


def level_history(rec, t0=0):
    return {
        "%s/%s" % k: [(round(r[1] - t0, 5), r[2], r[3]) for r in v] for k, v in rec.levels.items()
    }


def digest(rec):
    h = hashlib.sha1()
    h.update(repr(history(rec, rec.world.t0)).encode())
    h.update(repr(sorted(level_history(rec, rec.world.t0).items())).encode())
    for n, insts in rec.insts.items():
        for i in insts:
            h.update(("%s %s %s %s %s|" % (n, i.reg_t, i.done_t, i.ok, i.done_seq)).encode())
    h.update(repr(rec.world.env.tie_log).encode())
    return h.hexdigest()


def execute(sc, observe=None, cpu=20):
    """Run and judge; returns the Run with its problems in run.rec.problems."""
    with cpu_guard(cpu):
        run = None
        try:
            run = Run(sc, observe=observe)
            run.go()
        except Hang as e:
            if run is None:
                return Broken(sc, "hang", "hang while building")
            run.rec.problem("hang", str(e))
            return run
        except HarnessError:
            raise
        except Exception as e:  # noqa: BLE001
            if run is None and in_repo(e):
                return Broken(sc, "crash", "build: %s: %s" % (type(e).__name__, str(e)[:200]))
            raise
        run.judge()
    return run


class Broken:
    """A scenario that the library refused to build."""

    class _Env:
        tie_log = ()

    class _World:
        t0 = 0
        acts = {}
        counts = {}

    class _Rec:
        entries = ()

    def __init__(self, sc, code, msg):
        self.sc = sc
        self.error = msg
        self.legit_error = self.capped = False
        self.world, self.rec = self._World(), self._Rec()
        self.world.env = self._Env()
        self.rec.problems = [(code, msg, None)]

    def stats(self):
        return {"finished": 0, "counts": {}}

    def shape(self):
        return None

    def digest(self):
        return hashlib.sha1(str(self.error).encode()).hexdigest()


__all__ = ["Run", "execute", "history", "per_object", "near", "walk", "InjectedFault"]
