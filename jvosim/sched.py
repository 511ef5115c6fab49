"""Deterministic thread scheduler.

Caller threads are real threads, but only the one that holds the baton runs.  The
baton can change hands at every line (or every bytecode instruction) of the package
under test, at every lock operation, and where a thread ends.  Who gets it is decided
by the run's PRNG, or by an explicit list of switches when a run is replayed.
"""
import _thread
import hashlib
import math
import os
import random
import sys
import threading
import time
import queue

from . import core

real_allocate = _thread.allocate_lock
real_RLock = _thread.RLock
real_start = _thread.start_new_thread
real_sleep = time.sleep
get_ident = _thread.get_ident

DISABLE = sys.monitoring.DISABLE
SIM = None          # the active Sched of this process, if any
TOOL = 3


class SimAbort(BaseException):
    """Unwinds simulated threads when a run is given up."""


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


# ------------------------------------------------------------ seams: locks, threads, time

class SimLock:
    """threading.Lock whose blocking is decided by the scheduler while a simulation runs."""
    __slots__ = ("_l", "_owner", "__weakref__")

    def __init__(self):
        self._l = real_allocate()
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = SIM
        t = s.current() if s is not None else None
        if t is None:
            return self._l.acquire(blocking, timeout)
        s.point("lock", self)
        deadline = None if timeout is None or timeout < 0 else s.now() + timeout
        while not self._l.acquire(False):
            if not blocking:
                return False
            if deadline is not None:
                if s.now() >= deadline:
                    return False
            s.block(self, deadline)
        self._owner = t.tid
        return True

    def release(self):
        self._l.release()
        self._owner = None
        s = SIM
        if s is not None:
            s.wake(self)
            if s.current() is not None:
                s.point("unlock", self)

    def locked(self):
        return self._l.locked()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = real_allocate()
        self._owner = None


class SimRLock:
    __slots__ = ("_lock", "_own", "_count", "__weakref__")

    def __init__(self):
        self._lock = SimLock()
        self._own = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._own == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._own = me
            self._count = 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if self._own != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._own = None
            self._lock.release()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._own == get_ident()

    def _release_save(self):
        st = (self._count, self._own)
        self._count, self._own = 0, None
        self._lock.release()
        return st

    def _acquire_restore(self, st):
        self._lock.acquire()
        self._count, self._own = st

    def _recursion_count(self):
        return self._count if self._own == get_ident() else 0

    def _at_fork_reinit(self):
        self._lock._at_fork_reinit()
        self._own, self._count = None, 0


class VirtualClock:
    """time.time and friends: advances by one microsecond per reading, or when the run says so."""

    def __init__(self, base=1_700_000_000.0):
        self.t = base
        self.mono = 5000.0
        self.reads = 0

    def tick(self, d=1e-6):
        self.t += d
        self.mono += d if d > 0 else 0

    def time(self):
        self.reads += 1
        self.tick()
        return self.t

    def monotonic(self):
        self.reads += 1
        self.tick()
        return self.mono

    def sleep(self, d):
        if d < 0:
            raise ValueError("sleep length must be non-negative")
        self.tick(d)
        if SIM is not None and SIM.current() is not None:
            SIM.point("sleep", None)


CLOCK = VirtualClock()


def install_seams():
    """Before the package is imported: it then finds simulated locks, threads and clocks."""
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = None
    threading._PyRLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.allocate = SimLock
    _thread.LockType = SimLock
    _thread.RLock = SimRLock
    queue.SimpleQueue = queue._PySimpleQueue
    queue._PySimpleQueue.__init__.__globals__["threading"] = threading
    _thread.start_new_thread = _start_new_thread
    threading._start_new_thread = _start_new_thread
    threading.Thread._wait_for_tstate_lock = _wait_for_tstate_lock


def install_clock():
    """In a simulated process: time is virtual from here on."""
    c = CLOCK
    time.time = c.time
    time.monotonic = c.monotonic
    time.perf_counter = c.monotonic
    time.process_time = c.monotonic
    time.time_ns = lambda: int(c.time() * 1e9)
    time.monotonic_ns = lambda: int(c.monotonic() * 1e9)
    time.perf_counter_ns = lambda: int(c.monotonic() * 1e9)
    time.sleep = c.sleep
    threading._time = c.monotonic


def _start_new_thread(fn, args=(), kwargs=None):
    s = SIM
    if s is None or s.current() is None:
        return real_start(fn, args, kwargs or {})
    return s.spawn_from_code(fn, args, kwargs or {})


_orig_wait_tstate = threading.Thread._wait_for_tstate_lock


def _wait_for_tstate_lock(self, block=True, timeout=-1):
    s = SIM
    if s is not None and s.current() is not None and block:
        lock = self._tstate_lock
        if lock is None:
            return
        ident = self.ident
        s.join(ident, None if timeout is None or timeout < 0 else timeout)
        task = s.by_ident.get(ident)
        if task is not None and not task.done:
            return                      # timed out
        # the simulated thread is over; its real thread releases the lock at once
    return _orig_wait_tstate(self, block, timeout)


# ------------------------------------------------------------ the scheduler

class Task:
    __slots__ = ("tid", "sem", "done", "blocked_on", "deadline", "ident", "steps", "prio", "fn", "alarm")

    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.sem = real_allocate()
        self.sem.acquire()
        self.done = False
        self.blocked_on = None
        self.deadline = None
        self.ident = None
        self.steps = 0
        self.alarm = None
        self.prio = 0


class Sched:
    """strategy: dict(kind=rw|pct|burst|loc|replay, ...); gran: "line" or "instr"."""

    def __init__(self, seed, strategy, gran="line", max_steps=2_000_000, root=None, in_scope=None, codes=None):
        self.codes = codes           # the code objects whose lines are events (None: all)
        self.rng = random.Random(seed)
        self.st = strategy
        self.gran = gran
        self.max_steps = max_steps
        self.root = root or os.path.join(core.REPO, "py")
        self.tasks = []
        self.by_ident = {}
        self.steps = 0
        self.cur = None
        self.main_sem = real_allocate()
        self.main_sem.acquire()
        self.switches = []           # (tid, local step, to tid): the schedule, for replay
        self.digest = hashlib.blake2b(digest_size=12)
        self.failure = None
        self.aborting = False
        self.hook = None             # hook(task, code, where) -> next alarm: may raise into the running thread
        self.cd = self.cd0 = 1
        self.gap_end = 1
        self.ours = {}
        self.preempted = 0
        self.blocks = 0
        self._names = {}
        self.next_change = 0
        self.replay = None
        self.trace_sites = set()
        self.now_offset = 0.0
        k = strategy["kind"]
        if k == "replay":
            self.replay = {}
            self.replay_at = {}
            for t, s, to in strategy["switches"]:
                self.replay.setdefault((t, s), to)
                if s >= 0:
                    self.replay_at.setdefault(t, []).append(s)
            for v in self.replay_at.values():
                v.sort(reverse=True)
        elif k == "rw":
            self.p = strategy["p"]
            self._draw_gap()
        elif k == "pct":
            self.change_at = sorted(strategy["at"], reverse=True)     # global steps at which the running task drops to lowest priority
            self.low = 0
        elif k == "burst":
            self.burst = {}
            for t, s, to in strategy["plan"]:
                self.burst.setdefault(t, []).append((s, to))
            for v in self.burst.values():
                v.sort()
        elif k == "loc":
            self.locs = {tuple(x) for x in strategy["locs"]}
            self.ploc = strategy["p"]

    # -- set-up
    def now(self):
        return CLOCK.mono

    def add(self, fn):
        t = Task(len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def current(self):
        return self.by_ident.get(get_ident())

    def _run_task(self, t):
        t.ident = get_ident()
        self.by_ident[t.ident] = t
        t.sem.acquire()
        try:
            if not self.aborting:
                t.fn(t)
        except SimAbort:
            pass
        except BaseException as e:           # a bug of the harness: ops catch everything themselves
            if self.failure is None:
                self.failure = ("harness", repr(e))
        t.done = True
        self.finish(t)

    def spawn_from_code(self, fn, args, kwargs):
        def body(t):
            try:
                fn(*args, **kwargs)
            except SimAbort:
                raise
            except SystemExit:
                pass
            except BaseException:
                pass
        t = self.add(body)
        if self.st["kind"] == "pct":
            t.prio = self.rng.random()
        started = real_allocate()
        started.acquire()

        def boot():
            t.ident = get_ident()
            self.by_ident[t.ident] = t
            started.release()
            self._run_task(t)
        real_start(boot, ())
        started.acquire()
        self.point("spawn", None)
        return t.ident

    # -- running
    def run(self, timeout=100.0):
        global SIM
        mon = sys.monitoring
        SIM = self
        if self.st["kind"] == "pct":
            for t in self.tasks:
                t.prio = 1 + self.rng.random()
        for t in list(self.tasks):
            ev = real_allocate()
            ev.acquire()

            def boot(t=t, ev=ev):
                t.ident = get_ident()
                self.by_ident[t.ident] = t
                ev.release()
                self._run_task(t)
            real_start(boot, ())
            ev.acquire()
        evs = mon.events.LINE if self.gran == "line" else mon.events.INSTRUCTION
        mon.use_tool_id(TOOL, "jvosim")
        mon.register_callback(TOOL, mon.events.LINE, self._on_event)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, self._on_event)
        if self.codes is None:
            mon.set_events(TOOL, evs)
        for c in self.codes or []:
            mon.set_local_events(TOOL, c, evs)
        first = self.pick_start()
        self.cur = first
        self._arm(first)
        first.sem.release()
        ok = self.main_sem.acquire(True, timeout)
        mon.set_events(TOOL, 0)
        for c in self.codes or []:
            mon.set_local_events(TOOL, c, 0)
        SIM = None
        if not ok:
            self.failure = self.failure or ("stuck", "no simulated thread made progress")
        return self.failure is None

    def pick_start(self):
        st = self.st
        if st["kind"] == "pct":
            return max(self.tasks, key=lambda t: t.prio)
        if "start" in st:
            return self.tasks[st["start"] % len(self.tasks)]
        return self.tasks[self.rng.randrange(len(self.tasks))]

    def runnable(self):
        out = [t for t in self.tasks if not t.done and t.blocked_on is None]
        if not out:
            # timed waiters: jump the virtual clock to the earliest deadline
            timed = [t for t in self.tasks if not t.done and t.deadline is not None]
            if timed:
                t = min(timed, key=lambda t: (t.deadline, t.tid))
                if CLOCK.mono < t.deadline:
                    CLOCK.tick(t.deadline - CLOCK.mono)
                t.blocked_on = None
                t.deadline = None
                out = [t]
        return out

    def _draw_gap(self):
        p = self.p
        n = 1
        r = self.rng.random()
        if p < 1:
            n = 1 + int(math.log(max(r, 1e-12)) / math.log(1 - p))
        self.gap_end = self.steps + n

    # The running thread's events are counted down to the next one at which something can
    # happen (a decision of the strategy, an alarm, the step limit); all others return at once.

    def _arm(self, t):
        k = self.st["kind"]
        n = self.max_steps + 1 - self.steps
        if k == "rw":
            n = min(n, self.gap_end - self.steps)
        elif k == "replay":
            lst = self.replay_at.get(t.tid)
            while lst and lst[-1] <= t.steps:
                lst.pop()
            if lst:
                n = min(n, lst[-1] - t.steps)
        elif k == "burst":
            plan = self.burst.get(t.tid)
            if plan:
                n = min(n, plan[0][0] - t.steps)
        elif k == "pct":
            while self.change_at and self.change_at[-1] <= self.steps:
                self.change_at.pop()
            if self.change_at:
                n = min(n, self.change_at[-1] - self.steps)
        elif k == "loc":
            n = 1
        if t.alarm is not None:
            n = min(n, t.alarm - t.steps)
        if n < 1:
            n = 1
        self.cd = self.cd0 = n

    def _sync(self, t):
        """Account the events counted down since the last decision."""
        d = self.cd0 - self.cd
        if d:
            self.steps += d
            t.steps += d
            self.cd0 = self.cd

    def _on_event(self, code, where):
        if id(code) not in self.ours:
            if not code.co_filename.startswith(self.root):
                return DISABLE
            self.ours[id(code)] = code       # keeps the object alive, so the id stays its own
        cd = self.cd - 1
        self.cd = cd
        if cd > 0:
            return
        t = self.by_ident.get(get_ident())
        if t is None or t is not self.cur:
            if self.aborting and t is not None:
                raise SimAbort()
            self.cd = cd + 1
            return
        self._decide(t, code, where)

    def point(self, kind, obj):
        """A scheduling point of the simulator's own: lock operation, sleep, thread start."""
        t = self.by_ident.get(get_ident())
        if t is None or t is not self.cur:
            return
        self.cd -= 1
        self._decide(t, None, kind)

    def _decide(self, t, code, where):
        self._sync(t)
        if self.aborting:
            raise SimAbort()
        if self.steps > self.max_steps:
            self.fail("steps", f"no end after {self.max_steps} steps")
        if t.alarm is not None and t.steps >= t.alarm:
            t.alarm = self.hook(t, code, where)      # may raise into the running thread
        to = None
        k = self.st["kind"]
        if k == "rw":
            if self.steps >= self.gap_end:
                self._draw_gap()
                to = self._other(t)
        elif k == "replay":
            tid = self.replay.get((t.tid, t.steps))
            if tid is not None and tid < len(self.tasks):
                x = self.tasks[tid]
                if not x.done and x.blocked_on is None and x is not t:
                    to = x
        elif k == "burst":
            plan = self.burst.get(t.tid)
            if plan and t.steps >= plan[0][0]:
                tid = plan.pop(0)[1]
                if tid < len(self.tasks):
                    x = self.tasks[tid]
                    if not x.done and x.blocked_on is None and x is not t:
                        to = x
        elif k == "pct":
            if self.change_at and self.steps >= self.change_at[-1]:
                self.change_at.pop()
                self.low -= 1
                t.prio = self.low
            best = max((x for x in self.tasks if not x.done and x.blocked_on is None), key=lambda x: x.prio, default=t)
            if best is not t:
                to = best
        elif k == "loc":
            if code is not None and (code.co_name, where) in self.locs and self.rng.random() < self.ploc:
                to = self._other(t)
        if to is not None and to is not t:
            self.switches.append((t.tid, t.steps, to.tid))
            self.preempted += 1
            if code is not None:
                self.trace_sites.add((code.co_name, where))
            self.handover(t, to)
        self._arm(t)

    def _other(self, t):
        xs = [x for x in self.tasks if not x.done and x.blocked_on is None and x is not t]
        return xs[self.rng.randrange(len(xs))] if xs else None

    def handover(self, frm, to):
        self.digest.update(b"%d:%d>%d;" % (frm.tid, frm.steps, to.tid))
        self.cur = to
        self._arm(to)
        to.sem.release()
        frm.sem.acquire()
        if self.aborting:
            raise SimAbort()

    def next_after(self, t):
        xs = self.runnable()
        if not xs:
            return None
        k = self.st["kind"]
        if k == "replay":
            tid = self.replay.get((t.tid, -t.steps - 1))
            for x in xs:
                if x.tid == tid:
                    return x
            return xs[0]
        if k == "pct":
            return max(xs, key=lambda x: x.prio)
        if k == "burst":
            plan = self.burst.get(-1 - t.tid)
            if plan:
                tid = plan.pop(0)[1]
                for x in xs:
                    if x.tid == tid:
                        return x
            return xs[0]
        return xs[self.rng.randrange(len(xs))]

    def block(self, obj, deadline=None):
        t = self.current()
        self.blocks += 1
        t.blocked_on = obj
        t.deadline = deadline
        self._sync(t)
        to = self.next_after(t)
        if to is t:
            self._arm(t)
            return
        if to is None:
            t.blocked_on = None
            self.fail("deadlock", f"all threads are blocked (thread {t.tid} at step {t.steps})")
        self.switches.append((t.tid, -t.steps - 1, to.tid))
        self.handover(t, to)
        self._arm(t)

    def wake(self, obj):
        for x in self.tasks:
            if x.blocked_on is obj:
                x.blocked_on = None
                x.deadline = None

    def join(self, ident, timeout):
        target = self.by_ident.get(ident)
        deadline = None if timeout is None else self.now() + timeout
        while target is not None and not target.done:
            if deadline is not None and self.now() >= deadline:
                return
            self.block(("join", target.tid), deadline)

    def fail(self, kind, msg):
        if self.failure is None:
            self.failure = (kind, msg)
        self.aborting = True
        raise SimAbort()

    def finish(self, t):
        self._sync(t)
        for x in self.tasks:
            if isinstance(x.blocked_on, tuple) and x.blocked_on == ("join", t.tid):
                x.blocked_on = None
                x.deadline = None
        if self.aborting:
            for x in self.tasks:
                if not x.done:
                    x.done = True
                    x.sem.release()
            try:
                self.main_sem.release()
            except RuntimeError:
                pass
            return
        to = self.next_after(t)
        if to is None:
            if any(not x.done for x in self.tasks):
                self.failure = self.failure or ("deadlock", "all remaining threads are blocked")
                self.aborting = True
                self.finish(t)
                return
            self.main_sem.release()
            return
        self.digest.update(b"%d:end>%d;" % (t.tid, to.tid))
        if self.st["kind"] != "replay":
            self.switches.append((t.tid, -t.steps - 1, to.tid))
        self.cur = to
        self._arm(to)
        to.sem.release()
