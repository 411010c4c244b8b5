"""The simulator: simpy environments whose scheduling is decided by one seeded PRNG.

OpenCLSim takes its environment from the caller, so the environment class is the seam: every
timer, process start and event of the system under test goes through ``step``.  ``TieMixin``
owns the one choice simpy leaves to history: which of several timers that mature at the same
instant fires first.

modes
  fifo  simpy's own order.
  perm  all NORMAL-priority timers that mature at the new instant are permuted, then simpy
        carries on first-in-first-out.
  iso   the same permutation, but the complete zero-time cascade of one timer is run before
        the next one fires (the limit of timers that differ by an infinitesimal amount).

The mixin also reports every switch back from a process (``on_switch``), every step
(``after_step``) and every moment the clock is about to advance (``on_settle``).
"""

import heapq
import random

import simpy
from simpy.events import NORMAL


class StepCap(Exception):
    """The run used up its step budget."""


class TieMixin:
    _ap = None
    on_switch = None

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._tie_mode = "fifo"
        self._tie_rng = None
        self._tie_replay = None
        self._tie_pos = 0
        self._tie_pend = []
        self.tie_log = []  # choices made, replayable
        self.tie_points = 0  # instants with at least two competing timers
        self.step_count = 0
        self.step_cap = 10**9
        self.after_step = None
        self.on_settle = None

    # simpy sets this attribute when a process starts and stops running
    @property
    def _active_proc(self):
        return self._ap

    @_active_proc.setter
    def _active_proc(self, proc):
        before, self._ap = self._ap, proc
        if proc is None and before is not None and self.on_switch is not None:
            self.on_switch(before)

    def set_schedule(self, sched):
        self._tie_mode = sched.get("mode", "fifo")
        if sched.get("choices") is not None:
            self._tie_replay = list(sched["choices"])
        else:
            self._tie_rng = random.Random("tie/%s" % sched.get("seed", 0))

    def _choose(self, n):
        """Return a permutation of range(n) as a list; the identity costs nothing to replay."""
        self.tie_points += 1
        order = list(range(n))
        if self._tie_replay is not None:
            if self._tie_pos < len(self._tie_replay):
                want = self._tie_replay[self._tie_pos]
                if want and sorted(want) == order:
                    order = list(want)
            self._tie_pos += 1
        elif self._tie_rng is not None and self._tie_rng.random() < 0.75:
            self._tie_rng.shuffle(order)
        self.tie_log.append(order if order != sorted(order) else 0)
        return order

    def _arrange(self):
        queue = self._queue
        if self._tie_pend:
            if not queue or queue[0][0] > self._now:
                heapq.heappush(queue, self._tie_pend.pop(0))
            return
        if self._tie_mode == "fifo" or not queue:
            return
        when = queue[0][0]
        if when <= self._now:
            return
        same, other = [], []
        while queue and queue[0][0] == when:
            item = heapq.heappop(queue)
            (same if item[1] == NORMAL else other).append(item)
        if len(same) > 1:
            order = self._choose(len(same))
            if self._tie_mode == "iso":
                same = [same[j] for j in order]
                self._tie_pend = same[1:]
                same = same[:1]
            else:
                ids = [item[2] for item in same]
                same = [(when, NORMAL, ids[i], same[j][3]) for i, j in enumerate(order)]
        for item in other + same:
            heapq.heappush(queue, item)

    def _before(self):
        pass

    def _after(self):
        pass

    def step(self):
        self.step_count += 1
        if self.step_count > self.step_cap:
            raise StepCap("step budget exhausted at t=%r" % (self._now,))
        if self.on_settle is not None and not self._tie_pend:
            queue = self._queue
            if not queue or queue[0][0] > self._now:
                self.on_settle()
        self._arrange()
        self._before()
        try:
            super().step()
        finally:
            self._after()
            if self.after_step is not None:
                self.after_step()


def is_timer(event):
    return isinstance(event, simpy.events.Timeout) and event._delay > 0


class SimEnv(TieMixin, simpy.Environment):
    pass


_cp_class = None


def cp_env_class():
    global _cp_class
    if _cp_class is None:
        from openclsim.critical_path.dependencies_from_simpy_step import (
            CriticalPathEnvironment,
        )

        class SimCPEnv(TieMixin, CriticalPathEnvironment):
            """Keeps its own record of which event made which timer."""

            def __init__(self, *args, **kwargs):
                self._cause = {}  # event -> the last timer with a duration before it
                self._keep = []
                self._timers = []  # (timer, the timer that caused it or None)
                self._current = None
                super().__init__(*args, **kwargs)

            def schedule(self, event, priority=NORMAL, delay=0):
                cause = None
                if self._current is not None:
                    if is_timer(self._current):
                        cause = self._current
                    else:
                        cause = self._cause.get(id(self._current))
                self._cause[id(event)] = cause
                self._keep.append(event)  # ids stay unique
                if is_timer(event):
                    self._timers.append((event, self._now + event._delay, cause))
                super().schedule(event, priority, delay)

            def _before(self):
                self._current = self._queue[0][3] if self._queue else None

            def _after(self):
                self._current = None

            def timers(self):
                """Processed timers that take time: (value, end, start) and the same of the cause."""
                at = {id(e): (e._value, end, end - e._delay) for e, end, _ in self._timers}
                return [
                    (at[id(e)], at[id(c)] if c is not None else None)
                    for e, _, c in self._timers
                    if e.callbacks is None
                ]

        _cp_class = SimCPEnv
    return _cp_class
