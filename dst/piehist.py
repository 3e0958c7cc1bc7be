"""Reference model of the parameter bookkeeping of a PIE model, and seeded operations on it."""

import contextlib
import io
import re

from . import piemodel as pm
from .core import Violation

FIXED, STEPPING, VARYING = 1, 2, 3
DEFAULT = dict(amp=1., tilt=.5, curv=-.1, off=.2)
DOC = dict(amp='Amplitude', tilt='Slope', curv='Curvature', off='')


def real(status):
    return {FIXED: pm.realparam.fixed, STEPPING: pm.realparam.stepping, VARYING: pm.realparam.varying}[status]


class Reject(Exception):
    """The operation must be refused."""


class RefParam:
    def __init__(self, name):
        self.name = name
        self.value = DEFAULT[name]
        self.status = FIXED
        self.lo = self.hi = None
        self.delta = None
        self.step = None            # (type, slo, shi, n)
        self.num = 0

    def nominal(self, k):
        typ, lo, hi, n = self.step
        if k == 0:
            return lo
        if k == n - 1:
            return hi
        if typ == 'lin':
            return lo + k * (hi - lo) / (n - 1.)
        return lo * (hi / lo) ** (k / (n - 1.))


class Ref:
    """What the parameters of one model must look like."""

    def __init__(self):
        self.p = {n: RefParam(n) for n in pm.NAMES}
        self.lists = {FIXED: list(pm.NAMES), STEPPING: [], VARYING: []}
        self.drxn = {}

    def status(self, p, new):
        old = p.status
        if old != new:
            self.lists[old].remove(p.name)
            self.lists[new].append(p.name)
            p.status = new
        if new == STEPPING or (old == STEPPING and new != STEPPING):
            self.reset()

    def reset(self):
        for n in self.lists[STEPPING]:
            p = self.p[n]
            p.num = 0
            p.value = p.step[1]
            self.drxn[n] = 1

    def inrange(self, p, v):
        return p.lo is None or p.lo <= v <= p.hi

    # -- operations: each either applies or raises Reject without a change ----
    def apply(self, op):
        if 'name' in op:
            p = self.p[op['name']]
            op = resolve(op, p.lo, p.hi)
        k = op['op']
        if k == 'reset':
            return self.reset()
        if k == 'next':
            return self.next()
        if k == 'getset':
            if self.lists[STEPPING]:
                raise Reject()
            if any(not self.inrange(self.p[n], op['pv'].get(n, self.p[n].value)) for n in pm.NAMES):
                raise Reject()
            for n, v in op['pv'].items():
                self.p[n].value = v
            return
        p = self.p[op['name']]
        if k in ('assign', 'fix'):
            v = op.get('v')
            if v is not None:
                if not self.inrange(p, v):
                    raise Reject()
                p.value = v
            self.status(p, FIXED)
        elif k == 'range':
            p.lo, p.hi = min(op['lo'], op['hi']), max(op['lo'], op['hi'])
        elif k == 'vary':
            lo, hi = p.lo, p.hi
            if op.get('range'):
                lo, hi = min(op['range']), max(op['range'])
            if lo is None or not (p.delta if op.get('delta') is None else op['delta']):
                raise Reject()      # no range, or no scale (as after a step grid of equal points)
            if op.get('start') is not None and not lo <= op['start'] <= hi:
                raise Reject()
            p.lo, p.hi = lo, hi
            if op.get('delta') is not None:
                p.delta = op['delta']
            self.status(p, VARYING)
            if op.get('start') is not None:
                p.value = op['start']
        elif k in ('linstep', 'step', 'logstep'):
            lo, hi, n = op['lo'], op['hi'], 10 if op['n'] is None else op['n']
            if p.lo is None and (lo is None or hi is None):
                raise Reject()
            lo = p.lo if lo is None else lo
            hi = p.hi if hi is None else hi
            if not self.inrange(p, lo) or not self.inrange(p, hi):
                raise Reject()
            if k == 'logstep' and lo * hi <= 0. or n < 2:
                raise Reject()
            p.step = ('log' if k == 'logstep' else 'lin', lo, hi, n)
            if k != 'logstep':
                p.delta = (hi - lo) / (n - 1.)
            p.num = 0
            p.value = lo
            self.status(p, STEPPING)
        elif k == 'set_value':
            if p.status != VARYING or not self.inrange(p, op['v']):
                raise Reject()
            p.value = op['v']
        elif k in ('pnext', 'pprev', 'pfirst', 'plast'):
            if p.status != STEPPING:
                raise Reject()
            new = dict(pnext=p.num + 1, pprev=p.num - 1, pfirst=0, plast=p.step[3] - 1)[k]
            if not 0 <= new < p.step[3]:
                raise Reject()
            p.num = new
            p.value = p.nominal(new)
        else:
            raise AssertionError(k)

    def next(self):
        """True when the grid is finished (and has been reset)."""
        names = self.lists[STEPPING]
        for n in names:
            p = self.p[n]
            new = p.num + self.drxn[n]
            if 0 <= new < p.step[3]:
                p.num = new
                p.value = p.nominal(new)
                return False
            if n == names[-1]:
                self.reset()
                return True
            self.drxn[n] = -self.drxn[n]


def resolve(op, lo, hi):
    """Replace '<' and '>' by the ends of the range in force."""
    if op.get('range'):
        lo, hi = min(op['range']), max(op['range'])
    op = dict(op)
    for a in ('v', 'start', 'lo', 'hi'):
        if op.get(a) in ('<', '>') and isinstance(op[a], str):
            end = lo if op[a] == '<' else hi
            op[a] = 1. if end is None else end
    return op


def do(m, op):
    """Perform the operation on the real model; errors propagate."""
    k = op['op']
    if k == 'reset':
        return m.reset_steps()
    if k == 'next':
        return m.next_step()
    if k == 'getset':
        pv = m.get_params()
        for n, v in op['pv'].items():
            setattr(pv, n, v)
        return m.set_params(pv)
    name = op['name']
    p = getattr(m, name)
    op = resolve(op, *(p.lo, p.hi) if p.bounded else (None, None))
    if k == 'assign':
        setattr(m, name, op['v'])
    elif k == 'fix':
        p.fix(op['v']) if op['v'] is not None else p.fix()
    elif k == 'range':
        p.range(op['lo'], op['hi']) if op.get('two', True) else p.range((op['lo'], op['hi']))
    elif k == 'vary':
        kw = {a: op[a] for a in ('start', 'delta', 'range') if op.get(a) is not None}
        if 'range' in kw:
            kw['range'] = tuple(kw['range'])
        p.vary(**kw)
    elif k in ('linstep', 'step', 'logstep'):
        kw = {a: op[a] for a in ('lo', 'hi', 'n') if op[a] is not None}
        getattr(p, k)(**kw)
    elif k == 'set_value':
        p.set_value(op['v'])
    else:
        getattr(p, dict(pnext='next_step', pprev='prev_step', pfirst='first_step', plast='last_step')[k])()


def num(rng, pos=False):
    v = rng.choice([rng.uniform(0.1, 3.), rng.uniform(0.1, 3.), float(rng.randrange(1, 4))])
    return v if pos or rng.random() < 0.7 else -v


def gen_op(rng, wild=0.1):
    """A random operation; about a fraction `wild` of them has arguments outside the usual ranges."""
    name = rng.choice(pm.NAMES)
    k = rng.choice(['assign', 'fix', 'vary', 'vary', 'linstep', 'linstep', 'logstep', 'step', 'range', 'set_value', 'set_value', 'next', 'next', 'next',
                    'next', 'next', 'reset', 'pnext', 'pprev', 'pfirst', 'plast', 'getset'])
    op = dict(op=k, name=name)
    w = rng.random() < wild
    big = lambda: rng.choice([50., -50., 1e300])
    if k == 'assign':
        op['v'] = big() if w else num(rng)
    elif k == 'fix':
        op['v'] = None if rng.random() < 0.4 else big() if w else num(rng)
    elif k == 'vary':
        op['start'] = None if rng.random() < 0.3 else big() if w else num(rng)
        op['delta'] = None if rng.random() < 0.2 else rng.choice([0.01, 0.1, 1.])
        op['range'] = None if rng.random() < 0.3 else [-rng.uniform(3, 5), rng.uniform(3, 5)]
        if rng.random() < 0.2 and op['range']:
            op['range'].reverse()
    elif k in ('linstep', 'step', 'logstep'):
        pos = k == 'logstep'
        op['lo'] = None if rng.random() < 0.1 else big() if w else num(rng, pos and rng.random() < 0.95)
        op['hi'] = None if rng.random() < 0.1 else num(rng, pos)
        op['n'] = rng.choice([2, 3, 4, 5, 2, 3, 4, 5, None])
    elif k == 'range':
        op['lo'], op['hi'] = -rng.uniform(3, 6), rng.uniform(3, 6)
        op['two'] = rng.random() < 0.5
        if rng.random() < 0.2:
            op['lo'], op['hi'] = op['hi'], op['lo']
    elif k == 'set_value':
        op['v'] = big() if w else num(rng)
    elif k == 'getset':
        op['pv'] = {n: big() if w else num(rng) for n in rng.sample(pm.NAMES, rng.randrange(0, 4))}
    if k != 'range' and rng.random() < 0.1:
        for a in ('v', 'start', 'lo', 'hi'):
            if op.get(a) is not None and rng.random() < 0.7:
                op[a] = rng.choice('<>')
    return op


def compare(m, ref, when):
    """The real model must look exactly like the reference."""
    for st, lst in ((FIXED, 'fixed_params'), (VARYING, 'varying_params'), (STEPPING, 'stepping_params')):
        got = [h.name for h in getattr(m, lst)]
        if got != ref.lists[st]:
            raise Violation('wrong-lists', '%s is %r, should be %r, %s' % (lst, got, ref.lists[st], when))
    for n in pm.NAMES:
        p = ref.p[n]
        v = getattr(m, n)
        if v.status != real(p.status):
            raise Violation('wrong-status', '%s has status %r, should be %r, %s' % (n, v.status, p.status, when))
        exact = p.status != STEPPING or p.num in (0, p.step[3] - 1)
        if float(v) != p.value and (exact or not near(v, p)):
            raise Violation('wrong-value', '%s is %r, should be %r, %s' % (n, float(v), p.value, when))
        p.value = float(v)                  # carries the rounding of accumulated steps
        if p.lo is not None and (float(v.lo), float(v.hi)) != (p.lo, p.hi):
            raise Violation('wrong-range', '%s has the range %r, should be %r, %s' % (n, (v.lo, v.hi), (p.lo, p.hi), when))
        facts(v, p, when)
        if float(v.get_value()) != float(v):
            raise Violation('wrong-value', '%s reads %r but get_value gives %r, %s' % (n, float(v), float(v.get_value()), when))
    nums = tuple(ref.p[n].num for n in ref.lists[STEPPING])
    shape = tuple(ref.p[n].step[3] for n in ref.lists[STEPPING])
    if tuple(m.step_nums()) != nums:
        raise Violation('wrong-step', 'step_nums() is %r, should be %r, %s' % (m.step_nums(), nums, when))
    if tuple(m.step_shape()) != shape:
        raise Violation('wrong-step', 'step_shape() is %r, should be %r, %s' % (m.step_shape(), shape, when))
    pv = m.get_params()
    if list(pv.names) != list(pm.NAMES) or any(float(getattr(pv, n)) != float(getattr(m, n)) for n in pm.NAMES):
        raise Violation('wrong-params', 'get_params() differs from the parameters %s' % when)


def facts(v, p, when):
    """What a parameter says about itself."""
    n = p.name
    text = v.show()
    if n not in text or repr(p.value) not in text or DOC[n] not in text:
        raise Violation('wrong-report', '%s shows itself as %r, its value is %r, %s' % (n, text, p.value, when))
    try:
        num = v.step_index()
    except Exception as e:
        if p.status == STEPPING:
            raise Violation('refused', 'step_index() of stepping parameter %s raised %r, %s' % (n, e, when))
    else:
        if p.status != STEPPING:
            raise Violation('accepted', 'step_index() of %s, which is not stepping, gave %r, %s' % (n, num, when))
        if num != p.num:
            raise Violation('wrong-step', 'step_index() of %s is %r, should be %r, %s' % (n, num, p.num, when))
    pc = None
    if p.status == VARYING and p.lo < p.hi:
        pc = 100. * min(p.value - p.lo, p.hi - p.value) / (p.hi - p.lo)
    eps = 1e-6 * max(1., abs(pc)) if pc is not None else 0.
    try:
        got = [bool(v.check(pc - eps)), bool(v.check(pc + eps)), bool(v.check())] if pc is not None else [bool(v.check())]
    except Exception as e:
        if pc is not None:
            raise Violation('refused', 'check() of varying parameter %s raised %r, %s' % (n, e, when))
    else:
        if p.status != VARYING:
            raise Violation('accepted', 'check() of %s, which is not varying, gave %r, %s' % (n, got, when))
        if pc is not None and (got[:2] != [True, False] or got[2] != (pc >= 1.) and abs(pc - 1.) > 1e-6):
            raise Violation('wrong-check', 'check() of %s, %r%% of its range from the nearest end, gave %r, %s' % (n, pc, got, when))


def near(v, p):
    return abs(float(v) - p.value) <= 1e-9 * max(1e-3, abs(p.value), abs(p.step[1]) + abs(p.step[2]) if p.step else 0.)


def invariants(m, when, skip=None):
    """What holds even after user code failed in the middle of a change."""
    seen = {}
    for st, lst in ((FIXED, 'fixed_params'), (VARYING, 'varying_params'), (STEPPING, 'stepping_params')):
        for h in getattr(m, lst):
            if h.name in seen:
                raise Violation('wrong-lists', '%s is listed twice (%s and %s) %s' % (h.name, seen[h.name], lst, when))
            seen[h.name] = lst
            if h.status != real(st):
                raise Violation('wrong-lists', '%s is in %s but has status %r %s' % (h.name, lst, h.status, when))
    for n in pm.NAMES:
        v = getattr(m, n)
        if n not in seen:
            raise Violation('wrong-lists', '%s is in no list %s' % (n, when))
        if float(v) != float(v.get_value()):
            raise Violation('wrong-value', '%s reads %r but get_value gives %r %s' % (n, float(v), float(v.get_value()), when))
        if v.status == real(STEPPING) and n != skip:
            p = RefParam(n)
            p.step = ('lin' if v.stype == pm.realparam.lin_steps else 'log', v.slo, v.shi, v.steps)
            if not 0 <= v.step_num < v.steps:
                raise Violation('wrong-step', '%s is at step %r of %r %s' % (n, v.step_num, v.steps, when))
            p.value = p.nominal(v.step_num)
            if not near(v, p):
                raise Violation('wrong-value', '%s is %r at step %d, should be %r %s' % (n, float(v), v.step_num, p.value, when))


def report(m, ref):
    """The printed summaries name the parameters as they are."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m.show_status()
    text = out.getvalue()
    for st, word in ((FIXED, 'ixed'), (STEPPING, 'tepp'), (VARYING, 'ary')):
        lines = [x for x in text.splitlines() if word in x]
        names = [n for n in re.findall(r'\w+', ' '.join(lines)) if n in pm.NAMES]
        if names != ref.lists[st]:
            raise Violation('wrong-report', 'show_status() prints %r, the lists are %r' % (text, ref.lists))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m.show()
    for n in pm.NAMES:
        if not [x for x in out.getvalue().splitlines() if n in x and repr(float(getattr(m, n))) in x]:
            raise Violation('wrong-report', 'show() prints %r, %s is %r' % (out.getvalue(), n, float(getattr(m, n))))
