"""
Deterministic-simulation core.

One integer (VERIF_SEED) decides everything.  A *plan* is a JSON document made
by a scenario's ``gen(rng)`` from a seeded PRNG: operations, arguments, fault
points and scheduling decisions.  ``run(plan, sim)`` executes the plan against
the real code of /repo; it is a pure function of the plan and that code.  Each
run executes in its own forked child, so no run can see state that another run
left in the interpreter, and a run that hangs or kills its process is observed
from outside.

Failures are minimised by deleting and simplifying parts of the plan while the
same violation class persists; the minimised plan is the replay file.
"""

import hashlib
import json
import os
import random
import select
import signal
import struct
import sys
import time
import traceback


class Violation(Exception):
    """The property does not hold; `cls` is the class kept during shrinking."""

    def __init__(self, cls, msg):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The machinery itself went wrong; never reported as a violation."""


class Sim:
    """Per-run recorder: event log, fault counters, probes, simulated time."""

    MAXLOG = 4000

    def __init__(self, keep_log=False):
        self._h = hashlib.sha256()
        self._shape = hashlib.sha256()
        self.nevents = 0
        self.faults = {}
        self.probes = {}
        self.ops = {}
        self.time = 0.0          # simulated seconds
        self.keep_log = keep_log
        self.logged = []
        self.checks = 0          # oracle evaluations
        self.nontrivial = False
        self.interleavings = set()

    # Logging never draws from a PRNG and never reads a clock.
    def log(self, *what):
        s = repr(what)
        self.nevents += 1
        self._h.update(s.encode())
        if self.keep_log and len(self.logged) < self.MAXLOG:
            self.logged.append(s)

    def shape(self, *what):
        """Feed the coarse trace (op kinds, fault kinds, outcomes) that
        distinguishes one explored behaviour from another."""
        self._shape.update(repr(what).encode())

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.nontrivial = True
        self.shape('fault', kind)
        self.log('fault', kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def op(self, name):
        self.ops[name] = self.ops.get(name, 0) + 1
        self.shape('op', name)

    def ok(self, n=1):
        self.checks += n

    def result(self):
        return dict(digest=self._h.hexdigest(), shape=self._shape.hexdigest()[:16],
                    nevents=self.nevents, faults=self.faults, probes=self.probes,
                    ops=self.ops, time=self.time, checks=self.checks,
                    nontrivial=self.nontrivial,
                    interleavings=sorted(self.interleavings))


class Scenario:
    """Base class: subclasses define pid, gen, run and (optionally) shrink hooks."""
    pid = None
    #: plan keys holding lists whose elements may be deleted when shrinking
    list_fields = ('ops', 'faults')
    #: seconds after which a run counts as hung (runs take milliseconds)
    hang_s = 30
    #: number of runs in the quick tier, wall cap in seconds
    quick_runs = 1500
    quick_cap = 150
    thorough_s = 600
    rule = ''
    real = []
    stub = []
    assumptions = []

    def setup(self):
        """Import the code under test (called once per worker, before forking)."""

    def gen(self, rng):
        raise NotImplementedError

    def run(self, plan, sim):
        raise NotImplementedError

    def simplify(self, plan):
        """Yield plans simpler than `plan` (beyond deleting list elements)."""
        return ()


# ----------------------------------------------------------------------------
# seeds

def run_seed(base, pid, k):
    h = hashlib.sha256(('%d/%s/%d' % (base, pid, k)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def make_plan(scn, base, k):
    rng = random.Random(run_seed(base, scn.pid, k))
    plan = scn.gen(rng)
    plan['_k'] = k
    return json.loads(json.dumps(plan))     # exactly what a replay file holds


# ----------------------------------------------------------------------------
# one run, isolated in a forked child

def inside_repo(e):
    """Where exception `e` was raised if that passed through the code under test, else None."""
    tb, inside, names = e.__traceback__, False, []
    while tb is not None:
        fname = tb.tb_frame.f_code.co_filename
        if fname.startswith('/repo/package/'):
            inside = True
        names.append('%s:%d' % (fname, tb.tb_lineno))
        tb = tb.tb_next
    return ' <- '.join(names[::-1][:6]) if inside else None


def _child(scn, plan, wfd, keep_log):
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    if not os.environ.get('DST_DEBUG'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    sys.unraisablehook = lambda *a: None
    sim = Sim(keep_log)
    out = {}
    try:
        scn.run(plan, sim)
    except Violation as v:
        out['violation'] = dict(cls=v.cls, msg=v.msg[:2000])
    except BaseException as e:
        # An exception nobody expected: raised inside the code under test it is
        # a failure of that code; so is a result so wrong that the checks choke on
        # it; anything else is a bug of the harness.
        where = inside_repo(e)
        if where is not None:
            out['violation'] = dict(cls='unexpected-' + type(e).__name__, msg='%s: %s at %s' % (type(e).__name__, e, where))
        elif isinstance(e, (TypeError, AttributeError, ValueError, LookupError, ArithmeticError, AssertionError)):
            out['violation'] = dict(cls='unusable-result', msg=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
        else:
            out['harness'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    out.update(sim.result())
    if keep_log:
        out['log'] = sim.logged
    data = json.dumps(out).encode()
    data = struct.pack('>I', len(data)) + data
    while data:
        n = os.write(wfd, data)
        data = data[n:]


def _starved(pid, limit):
    """Seconds of processor time the runnable child has still to get before it
    counts as hung; 0 for one that has had its share or is blocked."""
    for _ in range(20):
        try:
            with open('/proc/%d/stat' % pid) as f:
                st = f.read().rpartition(')')[2].split()
        except OSError:
            return 0
        if st[0] == 'R':
            used = (int(st[11]) + int(st[12])) / float(os.sysconf('SC_CLK_TCK'))
            return max(0., limit - used)
        time.sleep(.01)
    return 0


def execute(scn, plan, keep_log=False):
    """Run `plan` in a forked child; return its result record."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            _child(scn, plan, wfd, keep_log)
        finally:
            os._exit(0)
    os.close(wfd)
    buf = b''
    deadline = time.monotonic() + scn.hang_s
    latest = deadline + 5 * scn.hang_s
    hung = False
    while True:
        r, _, _ = select.select([rfd], [], [], max(0., deadline - time.monotonic()))
        if not r:
            left = _starved(pid, scn.hang_s)
            if left <= 0 or time.monotonic() > latest:
                hung = True
                break
            deadline = time.monotonic() + left
            continue
        chunk = os.read(rfd, 1 << 16)
        if not chunk:
            break
        buf += chunk
        if len(buf) >= 4 and len(buf) >= 4 + struct.unpack('>I', buf[:4])[0]:
            break
    if hung:
        os.kill(pid, signal.SIGKILL)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if hung:
        return dict(violation=dict(cls='hang', msg='the operation under test did not return '
                                   'within %d s' % scn.hang_s), died=True)
    if len(buf) < 4 or len(buf) < 4 + struct.unpack('>I', buf[:4])[0]:
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGTRAP):
            return dict(violation=dict(cls='process-death', msg='the process was killed by signal %s'
                                       % signal.Signals(sig).name), died=True)
        return dict(harness='run died without a result, status %r' % (status,), died=True)
    return json.loads(buf[4:])


def elsewhere(func):
    """func() computed in a forked child, so that it neither sees nor leaves any state; its JSON value."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            data = json.dumps(func()).encode()
            while data:
                data = data[os.write(wfd, data):]
        finally:
            os._exit(0)
    os.close(wfd)
    buf = b''
    while True:
        chunk = os.read(rfd, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(rfd)
    os.waitpid(pid, 0)
    return json.loads(buf)


# ----------------------------------------------------------------------------
# minimisation

def shrink(scn, plan, cls, budget_s=60, max_tries=4000):
    """Smallest plan found that still shows a violation of class `cls`."""
    end = time.monotonic() + budget_s
    tries = [0]

    def fails(p):
        if tries[0] >= max_tries or time.monotonic() > end:
            return False
        tries[0] += 1
        r = execute(scn, p)
        return bool(r.get('violation')) and r['violation']['cls'] == cls

    best = plan
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for field in scn.list_fields:
            if field not in best or not best[field]:
                continue
            size = max(1, len(best[field]) // 2)
            while size >= 1:
                i = 0
                while i < len(best[field]):
                    cand = json.loads(json.dumps(best))
                    del cand[field][i:i + size]
                    if fails(cand):
                        best = cand
                        changed = True
                    else:
                        i += size
                    if time.monotonic() > end:
                        break
                size //= 2
        progress = True
        while progress and time.monotonic() < end:
            progress = False
            for cand in scn.simplify(best):
                cand = json.loads(json.dumps(cand))
                if cand == best:
                    continue
                if fails(cand):
                    best = cand
                    progress = changed = True
                    break
    return best, tries[0]
