"""
Deterministic thread scheduler.

Caller threads are real threads, but exactly one of them runs at any moment:
every line of /repo/package code that a simulated thread executes, and every
user callback, is a yield point at which the plan decides whether another
thread is released instead.  The schedule is a list of (yield number, choice)
pairs, so it is replayable and can be minimised by deleting pairs.
"""

import hashlib
import sys
import threading
import _thread

REPO = '/repo/package/'
TOOL = 4
CUR = None

_real_Lock = threading.Lock
_real_RLock = threading.RLock


class Deadlock(Exception):
    pass


class _Abort(BaseException):
    pass


class _Task:
    def __init__(self, i, fn):
        self.i = i
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.result = None
        self.exc = None
        self.blocked = False
        self.ident = None


class Sched:
    def __init__(self, sim, switches, lines=True, max_steps=2000000):
        self.sim = sim
        self.switches = sorted([int(s), int(c)] for s, c in switches)
        self.lines = lines
        self.step = 0
        self.si = 0
        self.tasks = []
        self.by_ident = {}
        self.finished = threading.Semaphore(0)
        self.current = None
        self.abort = None
        self.max_steps = max_steps
        self.trace = hashlib.sha256()
        self.preemptions = 0

    def spawn(self, fn):
        self.tasks.append(_Task(len(self.tasks), fn))

    # -- scheduling --------------------------------------------------------
    def _runnable(self, but=None):
        return [t for t in self.tasks if not t.done and not t.blocked and t is not but]

    def _handoff(self, me, target):
        self.trace.update(b'%d>%d@%d;' % (me.i if me else -1, target.i, self.step))
        self.current = target
        target.sem.release()
        if me is not None and not me.done:
            me.sem.acquire()
            if self.abort is not None:
                raise _Abort()

    def yield_point(self, label=''):
        me = self.by_ident.get(_thread.get_ident())
        if me is None or me.done:
            return
        if self.abort is not None:
            raise _Abort()
        self.step += 1
        if self.step > self.max_steps:
            self.abort = 'steps'
            raise _Abort()
        while self.si < len(self.switches) and self.switches[self.si][0] <= self.step:
            choice = self.switches[self.si][1]
            self.si += 1
            others = self._runnable(me)
            if others:
                self.preemptions += 1
                self.sim.probe('preemptions')
                self._handoff(me, others[choice % len(others)])
                return

    def wait_blocked(self):
        """The current thread cannot go on (lock taken): run somebody else."""
        me = self.by_ident.get(_thread.get_ident())
        others = self._runnable(me)
        if not others:
            self.abort = 'deadlock'
            raise _Abort()
        me.blocked = True
        try:
            self._handoff(me, others[0])
        finally:
            me.blocked = False

    def unblock_all(self):
        for t in self.tasks:
            t.blocked = False

    def _body(self, t):
        t.sem.acquire()
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        try:
            if self.abort is None:
                t.result = t.fn()
        except _Abort:
            pass
        except BaseException as e:
            t.exc = e
        finally:
            self.by_ident.pop(t.ident, None)
            t.done = True
            self.unblock_all()
            rest = self._runnable()
            if rest:
                self._handoff(t, rest[0])
            else:
                self.finished.release()

    def run(self):
        """Run all tasks to completion under the schedule."""
        global CUR
        CUR = self
        threads = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
        for th in threads:
            th.start()
        mon = sys.monitoring
        if self.lines:
            mon.use_tool_id(TOOL, 'dst')
            mon.register_callback(TOOL, mon.events.LINE, self._on_line)
            mon.set_events(TOOL, mon.events.LINE)
        try:
            self._handoff(None, self.tasks[0])
            self.finished.acquire()
        finally:
            if self.lines:
                mon.set_events(TOOL, 0)
                mon.register_callback(TOOL, mon.events.LINE, None)
                mon.free_tool_id(TOOL)
                mon.restart_events()
            CUR = None
        for th in threads:
            th.join(10)
        self.sim.interleavings.add(self.trace.hexdigest()[:16])
        if self.preemptions:
            self.sim.nontrivial = True
        self.sim.shape('sched', self.trace.hexdigest())
        self.sim.log('sched', self.trace.hexdigest(), self.step)
        if self.abort == 'deadlock':
            raise Deadlock('all simulated threads are blocked')
        return [(t.result, t.exc) for t in self.tasks]

    def _on_line(self, code, line):
        if not code.co_filename.startswith(REPO) or code.co_name == '<module>':
            return sys.monitoring.DISABLE
        self.yield_point()


def yield_point(label=''):
    if CUR is not None:
        CUR.yield_point(label)


def _in_sim():
    return CUR is not None and _thread.get_ident() in CUR.by_ident


class SimLock:
    """Lock that blocks in simulated, not real, time."""

    def __init__(self):
        self._l = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        if not _in_sim() or not blocking:
            return self._l.acquire(blocking, timeout) if blocking else self._l.acquire(False)
        while not self._l.acquire(False):
            CUR.wait_blocked()
        return True

    def release(self):
        self._l.release()
        if CUR is not None:
            CUR.unblock_all()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._l = SimLock()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._n += 1
            return True
        if self._l.acquire(blocking, timeout):
            self._owner = me
            self._n = 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._n -= 1
        if not self._n:
            self._owner = None
            self._l.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def patch_locks():
    """Let locks created by code under test block in simulated time.  Call
    just before importing it and unpatch just after."""
    threading.Lock = SimLock
    threading.RLock = SimRLock


def unpatch_locks():
    threading.Lock = _real_Lock
    threading.RLock = _real_RLock
