"""Deterministic task scheduler.

Tasks are real threads, but exactly one holds the baton at any time and every
hand-over is a decision of the simulator.  Switch points: seams (simulated I/O,
sleep, locks, collectives) and, when ``watch`` is given, every executed source
line of the watched files (via sys.settrace), so the simulator can preempt a
caller between any two lines of the code under test.
"""
import _thread
import contextlib
import os
import sys
import threading
import time

from .core import HarnessError, Violation

_alloc = _thread.allocate_lock
_get_ident = _thread.get_ident
_start_new = _thread.start_new_thread
_DEBUG = os.environ.get("DST_STEPTRACE")
_NEVER = 1 << 30
# preemption policies: how many steps between two preemptions (entry 0: no more)
_POLICIES = (
    (_NEVER, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233),
    (_NEVER, 1, 1, 2, 2, 3, 4, 6),
    (_NEVER, 7, 13, 21, 34, 55, 89),
    (_NEVER, 1, 144, 233, 377, 610, 987, 1597),
    (_NEVER, 1, 3, 30, 300, 3000),
)


class Task:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.baton = _alloc()
        self.baton.acquire()
        self.state = "new"  # new runnable blocked sleeping done
        self.wake_at = None
        self.waiting = None
        self.timed_out = False
        self.result = None
        self.ident = None
        self.thread_obj = None


class Sched:
    def __init__(self, sim, watch=(), max_steps=5_000_000, preempt=True):
        self.sim = sim
        self.watch = tuple(watch)
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.main = _alloc()
        self.main.acquire()
        self.problem = None
        self.max_steps = max_steps
        self.preempt = preempt
        self.countdown = _NEVER
        self.gaps = None
        self.interleaving = []
        self.active = False

    # ------------------------------------------------------------------
    def spawn(self, name, fn):
        t = Task(name, fn)
        self.tasks.append(t)
        t.state = "runnable"

        def boot():
            t.baton.acquire()
            t.ident = _get_ident()
            self.by_ident[t.ident] = t
            if t.thread_obj is not None:
                threading._active[t.ident] = t.thread_obj
            if self.watch:
                sys.settrace(self._trace)
            try:
                t.result = ("ok", t.fn())
            except Violation as v:
                self._stop(v)
                t.result = ("violation", v)
            except HarnessError as e:
                self._stop(e)
                t.result = ("harness", e)
            except BaseException as e:
                t.result = ("exc", e)
            finally:
                sys.settrace(None)
            threading._active.pop(t.ident, None)
            t.state = "done"
            self.by_ident.pop(t.ident, None)
            self.sim.event("task-end", t.name, t.result[0])
            self._wake(("join", t))
            self._dispatch(None)

        _start_new(boot, ())
        return t

    def run(self, tasks=()):
        """Run until every task is done.  Returns {name: (kind, value)}."""
        for name, fn in tasks:
            self.spawn(name, fn)
        self.active = True
        if self.preempt and self.gaps is None:
            self.gaps = self.sim.pick("policy", _POLICIES)
        self._arm()
        self._dispatch(None)
        self.main.acquire()
        self.active = False
        if self.problem is not None:
            raise self.problem
        self.sim.cover("interleaving", tuple(self.interleaving))
        return {t.name: t.result for t in self.tasks}

    def me(self):
        return self.by_ident.get(_get_ident())

    # ------------------------------------------------------------------
    def _stop(self, problem):
        if self.problem is None:
            self.problem = problem

    def _arm(self):
        if self.preempt:
            self.countdown = self.gaps[self.sim.choose("gap", len(self.gaps), zero=0.04)]

    def _dispatch(self, me):
        """Choose who runs next; ``me`` is the yielding task (None if done)."""
        if self.problem is not None:
            self.main.release()
            if me is not None:
                _alloc_block()
            return
        runnable = [t for t in self.tasks if t.state == "runnable"]
        while not runnable:
            sleepers = [t for t in self.tasks if t.wake_at is not None]
            if not sleepers:
                if all(t.state == "done" for t in self.tasks):
                    self.main.release()
                    return
                stuck = sorted(
                    f"{t.name}:{_wname(t.waiting)}"
                    for t in self.tasks
                    if t.state != "done"
                )
                self.sim.event("DEADLOCK", *stuck)
                self._stop(Violation("deadlock", "no task can run: " + ", ".join(stuck)))
                self.main.release()
                if me is not None:
                    _alloc_block()
                return
            t = min(sleepers, key=lambda t: (t.wake_at, self.tasks.index(t)))
            self.sim.now = max(self.sim.now, t.wake_at)
            t.wake_at = None
            t.timed_out = True
            t.state = "runnable"
            runnable = [t for t in self.tasks if t.state == "runnable"]
        # a sleeper may wake up while others are still running: time passes
        asleep = [t for t in self.tasks if t.state == "blocked" and t.waiting == ("sleep",)]
        if len(runnable) + len(asleep) == 1:
            nxt = runnable[0]
        else:
            nxt = (runnable + asleep)[self.sim.choose("next", len(runnable) + len(asleep))]
            if nxt.state == "blocked":
                self.sim.now = max(self.sim.now, nxt.wake_at)
                nxt.wake_at = None
                nxt.timed_out = True
                nxt.state = "runnable"
        if nxt is not self.current:
            self.interleaving.append((self.tasks.index(nxt), self.sim.steps))
            self.sim.event("run", nxt.name)
        self.current = nxt
        if nxt is me:
            return
        nxt.baton.release()
        if me is not None:
            me.baton.acquire()
            if self.problem is not None:
                _alloc_block()

    def _count(self):
        self.sim.steps += 1
        if _DEBUG:
            f, st = sys._getframe(2), []
            while f is not None and len(st) < 6:
                st.append(f"{f.f_code.co_filename[-18:]}:{f.f_lineno}")
                f = f.f_back
            self.sim.event("step", *st)
        if self.sim.steps > self.max_steps:
            self._stop(Violation("no-progress", f"no completion in {self.max_steps} steps"))
            self.main.release()
            _alloc_block()

    def step(self):
        """A possible preemption point."""
        me = self.me()
        if me is None or not self.active:
            return
        self._count()
        self.countdown -= 1
        if self.countdown <= 0:
            self._arm()
            self._dispatch(me)

    def yield_(self):
        """A seam: always let the simulator decide who goes next."""
        me = self.me()
        if me is None or not self.active:
            return
        self._count()
        self._dispatch(me)

    def block(self, on, timeout=None):
        """Park the current task until woken (True) or timed out (False)."""
        me = self.me()
        if me is None:
            raise HarnessError("block outside a task")
        self._count()
        me.state = "blocked"
        me.waiting = on
        me.timed_out = False
        me.wake_at = None if timeout is None else self.sim.now + max(0.0, timeout)
        self._dispatch(me)
        me.waiting = None
        return not me.timed_out

    def _wake(self, on, n=None):
        for t in self.tasks:
            if t.state == "blocked" and t.waiting == on:
                t.state = "runnable"
                t.wake_at = None
                if n is not None:
                    n -= 1
                    if n == 0:
                        return

    def wake(self, on, n=None):
        self._wake(on, n)

    def sleep(self, dt):
        me = self.me()
        if me is None or not self.active:
            self.sim.advance(dt)
            return
        self.block(("sleep",), timeout=dt)

    # ------------------------------------------------------------------
    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        for w in self.watch:
            if fn.startswith(w):
                return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.step()
        return self._local

    # ------------------------------------------------------------------
    @contextlib.contextmanager
    def patched_threading(self):
        """Route threading/queue/concurrent.futures/time through the simulator."""
        import concurrent.futures.thread as cft
        import queue

        sched = self

        class SimLock:
            def __init__(self):
                self._locked = False

            def acquire(self, blocking=True, timeout=-1):
                if sched.me() is not None:
                    sched.step()
                deadline = None if timeout is None or timeout < 0 else sched.sim.now + timeout
                while self._locked:
                    if not blocking:
                        return False
                    if sched.me() is None:
                        raise HarnessError("lock contention outside a task")
                    left = None if deadline is None else deadline - sched.sim.now
                    if left is not None and left <= 0:
                        return False
                    sched.block(("lock", id(self)), timeout=left)
                self._locked = True
                return True

            def release(self):
                if not self._locked:
                    raise RuntimeError("release unlocked lock")
                self._locked = False
                sched._wake(("lock", id(self)))

            def locked(self):
                return self._locked

            def _at_fork_reinit(self):
                self._locked = False

            def __enter__(self):
                self.acquire()
                return True

            def __exit__(self, *a):
                self.release()

        saved = {}
        T = threading.Thread

        def patch(obj, name, val):
            saved[(obj, name)] = getattr(obj, name)
            setattr(obj, name, val)

        def start(th):
            th._started.set()
            th._sim_task = sched.spawn(th.name, th.run)
            th._sim_task.thread_obj = th
            th._ident = 10_000 + len(sched.tasks)
            if sched.active:
                sched.yield_()

        def join(th, timeout=None):
            t = getattr(th, "_sim_task", None)
            if t is None:
                return
            end = None if timeout is None else sched.sim.now + timeout
            while t.state != "done":
                left = None if end is None else end - sched.sim.now
                if left is not None and left <= 0:
                    return
                sched.block(("join", t), timeout=left)

        def is_alive(th):
            t = getattr(th, "_sim_task", None)
            return t is not None and t.state != "done"

        # futures live in sets and are locked in id() order: make both depend on
        # creation order, not on memory addresses
        import concurrent.futures._base as cfb

        real_init, serial = cfb.Future.__init__, [0]

        def fut_init(f):
            serial[0] += 1
            f._sim_serial = serial[0]
            real_init(f)

        patch(cfb.Future, "__init__", fut_init)
        patch(cfb.Future, "__hash__", lambda f: f._sim_serial)
        cfb.id = lambda o: getattr(o, "_sim_serial", 0)

        def thread_hash(th):
            n = th.__dict__.get("_sim_serial")
            if n is None:
                serial[0] += 1
                n = th._sim_serial = serial[0]
            return n

        patch(T, "__hash__", thread_hash)
        patch(threading, "Lock", SimLock)
        patch(threading, "_allocate_lock", SimLock)
        patch(threading, "RLock", threading._PyRLock)
        patch(queue, "SimpleQueue", queue._PySimpleQueue)
        patch(cft, "_global_shutdown_lock", SimLock())
        patch(T, "start", start)
        patch(T, "join", join)
        patch(T, "is_alive", is_alive)
        patch(time, "sleep", self.sleep)
        try:
            yield self
        finally:
            for (obj, name), val in saved.items():
                setattr(obj, name, val)
            del cfb.id


def _alloc_block():
    """Park this thread for good (the simulated process is over)."""
    l = _alloc()
    l.acquire()
    l.acquire()


def _wname(w):
    return w[0] if isinstance(w, tuple) else str(w)
