"""The scheduler: which simulated thread runs next, and where an interrupt lands.

Simulated threads are real threads that hold a baton: exactly one runs at any
time.  Every source line of the library (``/repo/src/aligned_textgrid``) is a
yield point, found with ``sys.settrace``.  At a yield point the scheduler either
goes on or hands the baton to another thread; the choice is taken from the
run's PRNG and recorded as ``[global line step, thread]`` pairs, and a recorded
list replays the same execution.

Two policies choose: switches after exponentially distributed numbers of lines,
and meetings: a seeded subset of the places in the code makes a thread wait
there until another thread has passed the same place, which is what brings out
scratch data shared between calls.
"""
import sys
import threading
import zlib
import _thread

from . import env

_real_lock = _thread.allocate_lock
_current = None            # the Scheduler in charge, if any


class SimLock:
    """Cooperative replacement for threading.Lock/RLock in the library."""
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        s = _current
        return s.running if s is not None and s.in_task() else -1

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self._owner is not None and not (self.reentrant and self._owner == me):
            if not blocking:
                return False
            if me == -1:
                raise RuntimeError("SimLock: deadlock outside the simulated threads")
            _current.wait_lock(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock


class Interrupt(KeyboardInterrupt):
    pass


class Deadlock(Exception):
    pass


# ---- single-threaded tracing: count lines, raise at a chosen one -----------

def interrupted(fn, at, exc):
    """Run fn(); raise exc when the at-th library line is about to run.

    Returns (result, exception, lines executed, fired)."""
    state = {"n": 0, "fired": False}

    def local(frame, event, arg):
        if event == "line":
            state["n"] += 1
            if at is not None and state["n"] == at:
                state["fired"] = True
                raise exc("simulated")
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(env.PKG):
            return local
        return None
    res = err = None
    sys.settrace(tracer)
    try:
        res = fn()
    except BaseException as e:      # noqa: B902  (injected KeyboardInterrupt included)
        err = e
    finally:
        sys.settrace(None)
    return res, err, state["n"], state["fired"]


class Scheduler:
    """Run several callables as simulated threads."""

    def __init__(self, tasks, rng=None, mean=50, script=None, interrupts=None, meet=0, max_steps=400000):
        self.tasks = tasks
        self.n = len(tasks)
        self.rng = rng
        self.mean = mean
        self.script = None if script is None else [tuple(x) for x in script]
        self.interrupts = dict(interrupts or {})       # task -> (its own line step, exception)
        self.max_steps = max_steps
        self.meet = meet               # 0, or: one in so many places is a meeting place
        self.salt = rng.randrange(1 << 30) if rng is not None else 0
        self.parked = {}               # meeting place -> the thread that waits there
        self.back = None               # [thread to go back to, lines left until then]
        self.meetings = 0
        self.step = 0
        self.own = [0] * self.n
        self.running = None
        self.locks = [_real_lock() for _ in tasks]
        for l in self.locks:
            l.acquire()
        self.done_lock = _real_lock()
        self.done_lock.acquire()
        self.finished = [False] * self.n
        self.waiting = {}
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.switches = []
        self.fired = 0
        self.fired_tasks = set()       # the threads that were hit, however they took it
        self.trail = 0                 # rolling hash of (task, file line): the interleaving
        self.overrun = False
        self.idents = {}

    def in_task(self):
        return self.running is not None and self.idents.get(_thread.get_ident()) == self.running

    # -- decisions
    def _next_gap(self):
        return 1 + int(self.rng.expovariate(1.0 / self.mean))

    def _plan(self):
        if self.script is not None:
            self.sp = 0
        else:
            self.next_switch = self._next_gap()

    def _others(self):
        return [i for i in range(self.n) if i != self.running and self._runnable(i)]

    def _meet(self, frame):
        """Let a thread wait at a place until another thread has passed the same place."""
        me = self.running
        for k in [k for k, v in self.parked.items() if v == me]:
            del self.parked[k]
        if self.back is not None:
            self.back[1] -= 1
            if self.back[1] > 0:
                return None
            to, self.back = self.back[0], None
            return to if to != me and self._runnable(to) else None
        key = (frame.f_code.co_filename[len(env.PKG):], frame.f_lineno)
        if zlib.crc32(("%s:%d:%d" % (key + (self.salt,))).encode()) % self.meet:
            return None
        if key in self.parked:
            self.back = [self.parked.pop(key), self.rng.choice([1, 1, 2, 3, 5, 10, 40])]
            self.meetings += 1
            return None
        free = [i for i in self._others() if i not in self.parked.values()]
        if free and self.rng.random() < 0.6:
            self.parked[key] = me
            return self.rng.choice(free)
        return None

    def _decide(self, frame):
        """The task to switch to, or None."""
        if self.script is not None:
            if self.sp < len(self.script) and self.script[self.sp][0] <= self.step:
                to = self.script[self.sp][1]
                self.sp += 1
                if to != self.running and self._runnable(to):
                    return to
            return None
        if self.meet:
            return self._meet(frame)
        if self.step >= self.next_switch:
            self.next_switch = self.step + self._next_gap()
            others = self._others()
            if others:
                return self.rng.choice(others)
        return None

    def _runnable(self, i):
        if self.finished[i]:
            return False
        l = self.waiting.get(i)
        return l is None or not l.locked()

    # -- baton
    def _hand(self, to):
        me = self.running
        self.running = to
        self.locks[to].release()
        self.locks[me].acquire()

    def _yield(self, frame):
        me = self.running
        self.step += 1
        self.own[me] += 1
        self.trail = (self.trail * 1000003 ^ (me * 8191 + frame.f_lineno * 31 + len(frame.f_code.co_filename))) & (2**61 - 1)
        if self.step > self.max_steps:
            self.overrun = True
            return
        to = self._decide(frame)
        if to is not None:
            self.switches.append([self.step, to])
            self._hand(to)
        it = self.interrupts.get(me)
        if it is not None and self.own[me] == it[0]:
            self.fired += 1
            self.fired_tasks.add(me)
            raise it[1]("simulated")

    def wait_lock(self, lock):
        me = self.running
        self.waiting[me] = lock
        others = [i for i in range(self.n) if i != me and self._runnable(i)]
        if not others:
            self.waiting.pop(me, None)
            raise Deadlock("all simulated threads wait for locks")
        to = others[0]
        self._hand(to)
        self.waiting.pop(me, None)

    def _tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(env.PKG):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self._yield(frame)
        return self._local

    def _body(self, i):
        self.idents[_thread.get_ident()] = i
        self.locks[i].acquire()
        sys.settrace(self._tracer)
        try:
            self.results[i] = self.tasks[i]()
        except BaseException as e:      # noqa: B902
            self.errors[i] = e
        finally:
            sys.settrace(None)
        self.finished[i] = True
        rest = [j for j in range(self.n) if self._runnable(j)]
        if rest:
            to = rest[0]
            self.running = to
            self.locks[to].release()
        elif all(self.finished):
            self.done_lock.release()
        else:
            self.errors[i] = self.errors[i] or Deadlock("threads left waiting")
            self.done_lock.release()

    def run(self, first=0):
        global _current
        self._plan()
        _current = self
        try:
            self.running = first % self.n
            for i in range(self.n):
                _thread.start_new_thread(self._body, (i,))
            self.locks[self.running].release()
            self.done_lock.acquire()
        finally:
            _current = None
        return self
