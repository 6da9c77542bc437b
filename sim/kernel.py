"""Deterministic thread scheduler.

Real Python threads are parked and released one at a time.  Every lock, event,
condition, queue, future, pool, join, sleep and timed wait of the process goes
through the lock/thread/clock primitives replaced here (the standard library's
own pure-Python Condition/Event/Queue/Future/ThreadPoolExecutor run unchanged on
top of them), and every source line of the code under test is an additional
preemption point.  Which thread runs next, and when timers fire, is decided by a
seeded policy; the non-default decisions are recorded as a replayable trace.
"""
import _thread
import hashlib
import os
import queue
import random
import sys
import threading
import time

_real_allocate = _thread.allocate_lock
_real_start = threading._start_new_thread
_real_join = threading.Thread.join
_real_is_alive = threading.Thread.is_alive
_real_sleep = time.sleep
_real_monotonic = time.monotonic
_real_time = time.time
_real_perf = time.perf_counter
_get_ident = _thread.get_ident

ACTIVE = None  # the running Sim of this process


def _cur():
    s = ACTIVE
    if s is None:
        return None, None
    t = s.by_ident.get(_get_ident())
    return s, t


class SimLock:
    """threading.Lock stand-in; state lives in a real lock so that it also works
    outside a simulation."""

    __slots__ = ("_real", "_waiters", "__weakref__")

    def __init__(self):
        self._real = _real_allocate()
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s, t = _cur()
        if t is None:
            return self._real.acquire(blocking, timeout)
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        s.point(t, "acq")
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else s.now + timeout
        while True:
            ok = s.block(t, self._waiters, deadline)
            if self._real.acquire(False):
                return True
            if not ok and deadline is not None and s.now >= deadline:
                return False

    def release(self):
        self._real.release()
        s, t = _cur()
        if s is not None:
            if self._waiters:
                s.wake(self._waiters)
            if t is not None:
                s.point(t, "rel")

    def locked(self):
        return self._real.locked()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _real_allocate()
        self._waiters = []


class SimRLock:
    __slots__ = ("_block", "_owner", "_count", "__weakref__")

    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner != _get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError("cannot release un-acquired lock")
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return st

    def _recursion_count(self):
        return self._count if self._owner == _get_ident() else 0

    def _is_owned(self):
        return self._owner == _get_ident()


class TState:
    __slots__ = (
        "tid", "baton", "status", "deadline", "points", "waiters_on", "woken",
        "thread", "daemon", "joiners", "interrupt", "prio", "ident", "nopreempt",
    )

    def __init__(self, tid, thread, daemon):
        self.tid = tid
        self.baton = _real_allocate()
        self.baton.acquire()
        self.status = "run"  # run | blk | done
        self.deadline = None
        self.points = 0
        self.waiters_on = None
        self.woken = True
        self.thread = thread
        self.daemon = daemon
        self.joiners = []
        self.interrupt = False
        self.prio = 0.0
        self.ident = None
        self.nopreempt = 0


class Policy:
    """Seeded schedule policy. mode: random | pct | coarse | replay"""

    def __init__(self, spec, trace=None):
        self.spec = spec
        self.mode = spec.get("mode", "random") if trace is None else "replay"
        self.rng = random.Random(spec.get("seed", 0))
        self.p = spec.get("p", 0.1)
        self.p_line = spec.get("p_line", self.p)
        self.p_time = spec.get("p_time", 0.0)
        self.trace = trace
        self.changes = set()
        if self.mode == "pct":
            n = spec.get("n", 2000)
            self.changes = {self.rng.randrange(1, n) for _ in range(spec.get("d", 3))}


class Sim:
    FAIR = 4000  # forced switch after this many consecutive points of one thread

    def __init__(self, spec, trace=None, max_steps=400000, on_stuck=None, cpu_count=4,
                 interrupt=None, thread_limit=None):
        self.policy = Policy(spec, trace)
        self.trace_in = (
            {(e[0], e[1]): e[2] for e in trace} if trace is not None else None
        )
        self.trace = []
        self.threads = []
        self.by_ident = {}
        self.now = 0.0
        self.steps = 0
        self.switches = 0
        self.preempts = 0
        self.timer_fires = 0
        self.early_timers = 0
        self.max_steps = max_steps
        self.lsteps = 0
        self.on_stuck = on_stuck
        self.h = hashlib.sha256()
        self.cpu_count = cpu_count
        # interrupt: (n) deliver KeyboardInterrupt to thread 0 at its n-th line/block point
        self.interrupt = interrupt
        self.int_points = 0
        self.interrupt_fired = 0
        self.lines = bool(spec.get("lines", True))
        self.consec = 0
        self.events = []
        self.max_threads = 0
        self.thread_limit = thread_limit  # n-th thread start fails (resource exhaustion)
        self.starts = 0
        self.start_failures = 0

    # --- history ---------------------------------------------------------
    def log(self, *ev):
        self.events.append(ev)
        self.h.update(repr(ev).encode())

    def digest(self):
        return self.h.hexdigest()

    # --- choosing --------------------------------------------------------
    def _runnable(self):
        return [t for t in self.threads if t.status == "run"]

    def _default(self, t, run):
        if t.status == "run" and self.consec < self.FAIR:
            return t
        # rotate: next tid after t
        later = [x for x in run if x.tid > t.tid]
        pick = (later or run)[0]
        if pick is t and len(run) > 1:
            pick = [x for x in run if x is not t][0]
        return pick

    def _choose(self, t, kind):
        """t is at a scheduling point (or blocked / done). Returns next thread."""
        run = self._runnable()
        timed = None
        if not run:
            timed = self._fire_timer()
            if timed is None:
                return None
            run = self._runnable()
        d = self._default(t, run)
        key = (t.tid, t.points)
        if self.trace_in is not None:
            a = self.trace_in.get(key)
            if a is None:
                return d
            if a == "T":
                self._fire_timer(early=True)
                return self._default(t, self._runnable())
            for x in run:
                if x.tid == a:
                    return x
            return d
        pol = self.policy
        rng = pol.rng
        nx = d
        if pol.p_time and rng.random() < pol.p_time and any(
            x.status == "blk" and x.deadline is not None for x in self.threads
        ):
            self._fire_timer(early=True)
            self.trace.append((t.tid, t.points, "T"))
            return self._default(t, self._runnable())
        if len(run) > 1:
            if pol.mode == "random":
                p = pol.p_line if kind == "line" else pol.p
                if t.status != "run" or rng.random() < p:
                    nx = run[rng.randrange(len(run))]
            elif pol.mode == "pct":
                if self.steps in pol.changes:
                    t.prio = -self.steps - rng.random()
                nx = max(run, key=lambda x: (x.prio, -x.tid))
                if self.consec >= self.FAIR and nx is t:
                    t.prio = -1e9 - self.steps
                    nx = max(run, key=lambda x: (x.prio, -x.tid))
            elif pol.mode == "coarse":
                if t.status != "run" or kind in ("acq", "rel", "io") and rng.random() < pol.p:
                    nx = run[rng.randrange(len(run))]
        if nx is not d:
            self.trace.append((t.tid, t.points, nx.tid))
        return nx

    def _fire_timer(self, early=False):
        c = [x for x in self.threads if x.status == "blk" and x.deadline is not None]
        if not c:
            return None
        x = min(c, key=lambda y: (y.deadline, y.tid))
        if x.deadline > self.now:
            self.now = x.deadline
        self.timer_fires += 1
        if early:
            self.early_timers += 1
        x.status = "run"
        x.woken = False
        if x.waiters_on is not None and x in x.waiters_on:
            x.waiters_on.remove(x)
        x.waiters_on = None
        return x

    # --- switching -------------------------------------------------------
    def _switch(self, t, nx):
        if nx is t:
            return
        self.switches += 1
        self.consec = 0
        self.h.update(b"%d>%d@%d;" % (t.tid, nx.tid, t.points))
        nx.baton.release()
        if t.status != "done":
            t.baton.acquire()

    def point(self, t, kind):
        """A preemption opportunity of running thread t."""
        if t.nopreempt:
            return
        t.points += 1
        self.steps += 1
        self.consec += 1
        if kind == "line":
            self.lsteps += 1  # pure computation may take many lines: budgeted separately
        if self.steps - self.lsteps > self.max_steps or self.lsteps > 25 * self.max_steps:
            self.stuck("step budget of %d exhausted" % self.max_steps)
        if len(self.threads) == 1 and self.interrupt is None:
            return
        nx = self._choose(t, kind)
        if nx is not t and nx is not None:
            self.preempts += 1
            self._switch(t, nx)
        if kind == "line" and t.tid == 0:
            self._maybe_interrupt(t)

    def _maybe_interrupt(self, t):
        if self.interrupt is None or self.interrupt_fired:
            return
        self.int_points += 1
        if self.int_points >= self.interrupt:
            # not below third-party code, which may swallow the exception
            f = sys._getframe(1)
            while f is not None:
                if "site-packages" in f.f_code.co_filename:
                    return
                f = f.f_back
            self.interrupt_fired += 1
            self.log("interrupt", self.int_points)
            raise KeyboardInterrupt()

    def block(self, t, waiters, deadline):
        """Park t until woken (True) or its deadline passes (False)."""
        t.points += 1
        self.steps += 1
        if t.tid == 0:
            self._maybe_interrupt(t)
        t.status = "blk"
        t.deadline = deadline
        t.woken = True
        t.waiters_on = waiters
        if waiters is not None:
            waiters.append(t)
        if self.steps - self.lsteps > self.max_steps:
            self.stuck("step budget of %d exhausted" % self.max_steps)
        self.consec = 0
        nx = self._choose(t, "blk")
        if nx is None:
            self.stuck("deadlock: no thread can run")
        if nx is not t:
            self._switch(t, nx)
        t.deadline = None
        t.waiters_on = None
        return t.woken

    def wake(self, waiters):
        for x in waiters:
            x.status = "run"
            x.woken = True
            x.deadline = None
            x.waiters_on = None
        waiters.clear()

    def stuck(self, why):
        live = [
            "%d:%s:%s" % (x.tid, x.status, getattr(x.thread, "name", "main"))
            for x in self.threads if x.status != "done"
        ]
        if self.on_stuck is not None:
            self.on_stuck(why, live)
        sys.stderr.write("sim stuck: %s %s\n" % (why, live))
        os._exit(99)

    # --- threads ---------------------------------------------------------
    def spawn(self, func, args, kwargs=None):
        thread = getattr(func, "__self__", None)
        daemon = bool(getattr(thread, "daemon", True))
        t = TState(len(self.threads), thread, daemon)
        if self.policy.mode == "pct":
            t.prio = self.policy.rng.random()
        self.threads.append(t)
        live = sum(1 for x in self.threads if x.status != "done")
        self.max_threads = max(self.max_threads, live)
        if isinstance(thread, threading.Thread):
            thread._sim_tstate = t

        def boot():
            t.baton.acquire()
            t.ident = _get_ident()
            self.by_ident[t.ident] = t
            try:
                func(*args, **(kwargs or {}))
            finally:
                self._exit(t)

        return _real_start(boot, ())

    def _exit(self, t):
        t.status = "done"
        t.points += 1
        self.wake(t.joiners)
        self.by_ident.pop(t.ident, None)
        self.consec = 0
        nx = self._choose(t, "exit")
        if nx is None:
            self.stuck("deadlock: no thread can run")
        self._switch(t, nx)

    def join(self, t, target, timeout):
        deadline = None if timeout is None else self.now + max(timeout, 0)
        self.point(t, "acq")
        while target.status != "done":
            if deadline is not None and self.now >= deadline:
                return
            self.block(t, target.joiners, deadline)

    def sleep(self, t, secs):
        end = self.now + max(0, secs)
        self.point(t, "acq")
        while self.now < end:
            self.block(t, None, end)

    # --- run -------------------------------------------------------------
    def run(self, fn):
        """Run fn() as simulated thread 0 (the calling thread)."""
        global ACTIVE
        t = TState(0, threading.current_thread(), False)
        if self.policy.mode == "pct":
            t.prio = self.policy.rng.random()
        t.ident = _get_ident()
        self.threads.append(t)
        self.by_ident[t.ident] = t
        ACTIVE = self
        if self.lines:
            enable_lines()
        try:
            return fn()
        finally:
            disable_lines()
            self.by_ident.pop(t.ident, None)
            ACTIVE = None

    def live_others(self):
        return [x for x in self.threads[1:] if x.status != "done"]

    def process_exit(self):
        """What interpreter shutdown does: drain pools, join non-daemon threads.
        Must be called inside run(); hangs are reported through on_stuck."""
        self.interrupt = None
        import concurrent.futures.thread as cft

        cft._python_exit()
        me = self.threads[0]
        for x in list(self.threads[1:]):
            if not x.daemon:
                self.join(me, x, None)

    def drain(self):
        """Let every thread, daemon or not, run to its end."""
        me = self.threads[0]
        for x in list(self.threads[1:]):
            self.join(me, x, None)


# --- line preemption via sys.monitoring -----------------------------------
_TOOL = 3
_lines_on = False
SOURCE_PREFIX = os.environ.get("VERIF_REPO", "/repo").rstrip("/") + "/mergekit/"


def _on_line(code, line):
    if not code.co_filename.startswith(SOURCE_PREFIX):
        return sys.monitoring.DISABLE
    s = ACTIVE
    if s is None:
        return
    t = s.by_ident.get(_get_ident())
    if t is not None:
        s.point(t, "line")


def enable_lines():
    global _lines_on
    if _lines_on:
        return
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, "verif-sim")
    mon.register_callback(_TOOL, mon.events.LINE, _on_line)
    mon.set_events(_TOOL, mon.events.LINE)
    _lines_on = True


def disable_lines():
    global _lines_on
    if _lines_on:
        sys.monitoring.set_events(_TOOL, 0)
        _lines_on = False


def io_point():
    """Preemption point for harness-wrapped I/O calls."""
    s, t = _cur()
    if t is not None:
        s.point(t, "io")


# --- installing the seams --------------------------------------------------
def _start_new_thread(func, args=(), kwargs=None):
    s, t = _cur()
    if t is None:
        if kwargs:
            return _real_start(func, args, kwargs)
        return _real_start(func, args)
    s.starts += 1
    if s.thread_limit is not None and s.starts == s.thread_limit:
        s.start_failures += 1
        s.log("thread-start-failed", s.starts)
        raise RuntimeError("can't start new thread")
    return s.spawn(func, args, kwargs)


def _join(self, timeout=None):
    s, t = _cur()
    ts = getattr(self, "_sim_tstate", None)
    if t is None or ts is None:
        return _real_join(self, timeout)
    if ts is t:
        raise RuntimeError("cannot join current thread")
    s.join(t, ts, timeout)


def _is_alive(self):
    ts = getattr(self, "_sim_tstate", None)
    if ts is None or ACTIVE is None:
        return _real_is_alive(self)
    return ts.status != "done"


def _sleep(secs):
    s, t = _cur()
    if t is None:
        return _real_sleep(secs)
    s.sleep(t, secs)


def _monotonic():
    s = ACTIVE
    return _real_monotonic() if s is None else 1000.0 + s.now


EPOCH = [1.7e9]


def _time():
    s = ACTIVE
    return _real_time() if s is None else EPOCH[0] + s.now


def _perf():
    s = ACTIVE
    return _real_perf() if s is None else 1000.0 + s.now


_real_cpu_count = os.cpu_count


def _cpu_count():
    s = ACTIVE
    return _real_cpu_count() if s is None else s.cpu_count


_installed = False


def install():
    """Replace the process's thread primitives. Call before importing the code
    under test (and before concurrent.futures)."""
    global _installed
    if _installed:
        return
    _installed = True
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._start_new_thread = _start_new_thread
    _thread.start_new_thread = _start_new_thread
    threading.Thread.join = _join
    threading.Thread.is_alive = _is_alive
    queue.SimpleQueue = queue._PySimpleQueue
    time.sleep = _sleep
    time.monotonic = _monotonic
    time.time = _time
    time.perf_counter = _perf
    threading._time = _monotonic
    queue.time = _monotonic
    os.cpu_count = _cpu_count
    import concurrent.futures.thread as cft  # noqa: F401  (built on the seams)

    try:
        import tqdm

        tqdm.tqdm.monitor_interval = 0  # no monitor thread
        tqdm.tqdm.set_lock(SimRLock())  # instead of a multiprocessing semaphore
    except ImportError:
        pass
