"""P23: running log sums and steppers hold what was put into them, whatever happens to others or fails in between."""

import json
import math

from . import engines
from .core import Scenario, Violation
from .p06 import EXC, INTERRUPTS, make_exc

SEXC = [e for e in EXC if e not in ('IterErr', 'StopIteration', 'GeneratorExit')]
ARITH = ['__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__', '__float__', '__neg__', '__truediv__', '__rtruediv__']


class Num(float):
    """A number whose arithmetic fails, or uses other summers, at a planned operation."""
    hook = None


def _wrap(name):
    f = getattr(float, name)

    def g(self, *a):
        if self.hook is not None:
            self.hook()
        return f(self, *a)
    return g


for _n in ARITH:
    setattr(Num, _n, _wrap(_n))
Num.__hash__ = float.__hash__


class Model:
    """The values a summer holds."""

    def __init__(self, vals=(), n=0):
        self.vals = list(vals)
        self.n = n

    def copy(self):
        return Model(self.vals, self.n)

    def add(self, v):
        self.n += 1
        if v != -math.inf:
            self.vals.append(v)

    def sums(self):
        """log of the sum and of the sum of squares, None for nothing"""
        if not self.vals:
            return None, None
        m = max(self.vals)
        if m == math.inf or any(math.isnan(v) for v in self.vals):
            return (math.nan,) * 2 if any(math.isnan(v) for v in self.vals) else (m, m)
        return m + math.log(math.fsum(math.exp(v - m) for v in self.vals)), 2 * m + math.log(math.fsum(math.exp(2 * (v - m)) for v in self.vals))

    def spread(self):
        """variance in units of the mean square"""
        m = max(self.vals)
        x = [math.exp(v - m) for v in self.vals]
        mean = math.fsum(x) / self.n
        ms = math.fsum(y * y for y in x) / self.n
        return (math.fsum((y - mean) ** 2 for y in x) + (self.n - len(x)) * mean ** 2) / self.n / ms


class P23(Scenario):
    pid = 'P23'
    quick_runs = 20000
    rule = ('A run is a seeded history on 1-3 running log sums (additions of values of all sizes, zeros, infinities and non-numbers, status queries, copies resumed from the reported count and sums) interleaved with 0-3 steppers '
            'that are advanced, abandoned or failed by their users; the arithmetic of planned values fails or uses another summer. Each status is compared with the exact sum of the values that were added, '
            'each step with the grid asked for. Non-trivial = a fault fired, a value was refused or a sum resumed. Distinct = distinct hash of operations and outcomes.')
    real = ['utils.numutils (LogSummer and steppers)']
    stub = ['the values added']
    assumptions = ['one thread uses a summer at a time; values are scalars']

    def setup(self):
        global nu
        engines.setup()
        import importlib
        nu = importlib.import_module('inference.utils.numutils')

    def gen(self, rng):
        mode = rng.choice(['mixed', 'mixed', 'equal', 'close', 'huge', 'tiny'])
        base = rng.choice([0., 0., 3., -700., 800., -2e4, 1e5])

        def value():
            r = rng.random()
            if r < .04:
                return 'zero'
            if r < .07:
                return '-inf'
            if r < .08:
                return rng.choice(['inf', 'nan'])
            if mode == 'equal':
                return base
            if mode == 'close':
                return base + rng.uniform(-.5, .5)
            if mode == 'mixed':
                return base + rng.choice([rng.uniform(-5., 5.), rng.uniform(-60., 60.), float(rng.randrange(-3, 4)), 38. * rng.choice([-1, 1]), 39.9 * rng.choice([-1., 1]), 45. * rng.choice([-1, 1])])
            return rng.uniform(-1., 1.) * (1e4 if mode == 'huge' else 1e-3)
        nsum = rng.choice([1, 2, 3])
        sums = [[rng.random() < .6, rng.choice([0, 0, 0, 1, 50, 1000, 10 ** 6]), base + rng.uniform(-5., 5.)] for _ in range(nsum)]
        steppers = []
        share = rng.choice([.15, .35, .35, .85])       # of operations on steppers
        kinds = ['lin_stepper', 'lin_enum_stepper', 'log_stepper', 'log_enum_stepper']
        if rng.random() < .6:
            kinds = [rng.choice(kinds)]
        for _ in range(rng.choice([0, 1, 2, 3]) if share < .8 else rng.choice([2, 3])):
            kind = rng.choice(kinds)
            lo, hi = rng.choice([1, .5, 2., 1e-3, 7]), rng.choice([10, 3.5, 1e4, 1.25])
            if kind[:3] == 'lin' and rng.random() < .5:
                lo = -lo
            if rng.random() < .3:
                lo, hi = hi, lo
            steppers.append([kind, lo, hi, rng.choice([1, 2, 3, 4, 7, 20])])
        ops = []
        for _ in range(rng.choice([3, 8, 25, 60])):
            r = rng.random()
            if steppers and rng.random() < share:
                op = dict(op=rng.choice(['step', 'step', 'step', 'step', 'step', 'step', 'step', 'step', 'step', 'drain', 'close', 'throw', 'restart']), g=rng.randrange(len(steppers)), exc=rng.choice(SEXC))
            elif r < .8:
                op = dict(op='add', s=rng.randrange(nsum), v=value(), type=rng.choice(['float', 'float', 'float', 'np', 'np32', 'int']), fault=None)
                if rng.random() < .2:
                    op['type'] = 'num'
                    op['fault'] = [rng.randrange(6), rng.choice(SEXC + ['nest'] * 6), rng.randrange(nsum), rng.uniform(-3., 3.)]
                elif rng.random() < .05:
                    op['v'] = rng.choice(['abc', None, '(1, 2)'])
            elif r < .95:
                op = dict(op='status', s=rng.randrange(nsum))
            else:
                op = dict(op='resume', s=rng.randrange(nsum), dst=rng.randrange(nsum), sig=rng.random() < .5)
            ops.append(op)
        return dict(sums=sums, steppers=steppers, ops=ops)

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            if op.get('fault'):
                p = json.loads(json.dumps(plan))
                p['ops'][i]['fault'] = None
                yield p
            if op.get('type', 'float') != 'float':
                p = json.loads(json.dumps(plan))
                p['ops'][i].update(type='float', fault=None)
                yield p

    def run(self, plan, sim):
        np = engines.np
        sums, models = [], []
        sig = [x[0] for x in plan['sums']]
        for dosig, n, v in plan['sums']:
            if n:       # goes on from n earlier values, all but one of them zero
                start_ = (n, v, 2 * v) if dosig else (n, v)
                sums.append(nu.LogSummer(dosig, start_))
                models.append(Model([v], n=n))
            else:
                sums.append(nu.LogSummer(dosig=True) if dosig else nu.LogSummer())
                models.append(Model())
        gens = [None] * len(plan['steppers'])
        pos = [None] * len(gens)

        def start(j):
            kind, lo, hi, n = plan['steppers'][j]
            gens[j] = getattr(nu, kind)(lo, hi, n)
            pos[j] = 0

        def step(j):
            kind, lo, hi, n = plan['steppers'][j]
            i = pos[j]
            try:
                got = next(gens[j])
            except StopIteration:
                if i != n and i != 'dead':
                    raise Violation('stepper', '%s%r ended after %r of %d steps' % (kind, (lo, hi, n), i, n))
                pos[j] = 'dead'
                return False
            except (ZeroDivisionError, ValueError):
                if n == 1:
                    pos[j] = 'dead'
                    return False
                raise
            if i == 'dead' or i >= n:
                raise Violation('stepper', '%s%r gave %r after its end' % (kind, (lo, hi, n), got))
            if 'enum' in kind:
                k, got = got
                if k != i:
                    raise Violation('stepper', 'step %d of %s%r is numbered %r' % (i, kind, (lo, hi, n), k))
            f = i / (n - 1.) if n > 1 else 0.
            want = lo if i == 0 else hi if i == n - 1 else lo + (hi - lo) * f if kind[:3] == 'lin' else lo * math.exp(math.log(hi / lo) * f)
            tol = 0. if i in (0, n - 1) else 1e-12 * max(abs(lo), abs(hi)) if kind[:3] == 'lin' else 1e-12 * abs(want)
            if not abs(got - want) <= tol:
                raise Violation('stepper', 'step %d of %s%r is %r, should be %r' % (i, kind, (lo, hi, n), got, want))
            pos[j] = i + 1
            return True

        def add(i, v, model_v):
            s = sums[i]
            s += v
            sums[i] = s
            models[i].add(model_v)

        def check(i, when):
            m = models[i]
            try:
                st = sums[i].status()
            except ValueError as e:
                if m.vals:
                    raise Violation('spurious-error', '%s: status of a sum of %d values raised %r' % (when, m.n, e))
                sim.probe('empty')
                return
            if len(st) != (5 if sig[i] else 3):
                raise Violation('status', 'status is %r' % (st,))
            n, ls, lm = st[0], st[1], st[3] if sig[i] else st[2]
            if n != m.n:
                raise Violation('count', '%s: %d values were added, the summer counts %r' % (when, m.n, n))
            ws, w2 = m.sums()
            if ws is None:
                if not m.n or ls != -math.inf or lm != -math.inf:
                    raise Violation('sum', '%s: the status of an empty sum is %r' % (when, st))
                return
            if math.isnan(ws) or ws == math.inf:
                # never turned into an ordinary result
                if math.isnan(ws) and not math.isnan(ls) or ws == math.inf and ls != ws:
                    raise Violation('lost', '%s: a value that is %r was added, the log sum is %r' % (when, ws, ls))
                return
            top = max(abs(v) for v in m.vals) + math.log(m.n + 1.) + 1.
            tol = 4e-15 * (len(m.vals) + 2) * top
            if not abs(ls - ws) <= tol:
                raise Violation('sum', '%s: the log sum is %r, should be %r' % (when, ls, ws))
            if not abs(lm - (ws - math.log(m.n))) <= tol:
                raise Violation('sum', '%s: the log mean is %r, should be %r' % (when, lm, ws - math.log(m.n)))
            if sig[i]:
                if not abs(st[2] - w2) <= 2 * tol:
                    raise Violation('sum', '%s: the log sum of squares is %r, should be %r' % (when, st[2], w2))
                spread = m.spread()
                x = 2 * st[4] - (w2 - math.log(m.n))
                x = math.exp(x) if x < 700. else x
                if not abs(x - spread) <= 8 * tol:
                    raise Violation('sigma', '%s: the log standard deviation is %r, for a variance of %r of the mean square' % (when, st[4], spread))

        for k, op in enumerate(plan['ops']):
            o = op['op']
            sim.op(o)
            if o in ('step', 'drain', 'close', 'throw', 'restart'):
                j = op['g']
                if gens[j] is None or o == 'restart':
                    start(j)
                if o == 'step':
                    step(j)
                elif o == 'drain':
                    while step(j):
                        pass
                elif o == 'close':
                    gens[j].close()
                    pos[j] = 'dead'
                    sim.fault('abandoned')
                elif o == 'throw':
                    e = make_exc(op['exc'], k)
                    try:
                        gens[j].throw(e)
                        raise Violation('wrong-error', 'an error of the user of %s was swallowed' % plan['steppers'][j][0])
                    except Violation:
                        raise
                    except BaseException as err:
                        if err is not e:
                            raise Violation('wrong-error', 'the user of %s raised %r, got %r' % (plan['steppers'][j][0], e, err))
                    pos[j] = 'dead'
                    sim.fault('user_error')
                sim.shape(o, plan['steppers'][j], repr(pos[j]))
                sim.log(o, j, repr(pos[j]))
                sim.ok()
                continue
            i = op['s']
            when = 'operation %d' % k
            if o == 'add':
                v = op['v']
                before = models[i].copy()
                if v == 'zero':
                    sums[i].add_zero()
                    models[i].n += 1
                elif v in ('abc', None, '(1, 2)'):
                    bad = (1, 2) if v == '(1, 2)' else v
                    try:
                        s = sums[i]
                        s += bad
                        raise Violation('accepted', '%s: %r was added to a sum of %d values' % (when, bad, models[i].n))
                    except Violation:
                        raise
                    except (TypeError, ValueError, AttributeError) as e:
                        sim.nontrivial = True
                        sim.probe('refused')
                else:
                    v = float(v)
                    mv = v
                    if op['type'] == 'np':
                        v = np.float64(v)
                    elif op['type'] == 'np32' and math.isfinite(v):
                        mv = float(np.float32(v))
                        v = np.float32(v)
                        v = float(v)
                    elif op['type'] == 'int' and math.isfinite(v):
                        v = int(v)
                        mv = float(v)
                    fired = []
                    if op['type'] == 'num':
                        v = Num(v)
                        if op['fault']:
                            nth, kind, other, nv = op['fault']
                            cnt = [0]
                            exc = None if kind == 'nest' else make_exc(kind, k)

                            def hook():
                                cnt[0] += 1
                                if cnt[0] - 1 == nth and not fired:
                                    fired.append(1)
                                    if exc is not None:
                                        raise exc
                                    if other != i:
                                        add(other, nv, nv)
                                        sim.fault('nested_use')
                            v.hook = hook
                    try:
                        add(i, v, mv)
                    except Violation:
                        raise
                    except BaseException as e:
                        if fired and e is exc:
                            sim.fault('interrupt_in_value' if kind in INTERRUPTS else 'value_error')
                        elif math.isnan(mv) and isinstance(e, ValueError):
                            sim.nontrivial = True
                            sim.probe('refused')
                        else:
                            raise Violation('spurious-error', '%s: adding %r raised %r' % (when, mv, e))
                        if before.n != models[i].n:
                            raise Violation('harness', 'model moved')
                    if type(v) is Num:
                        v.hook = None
                check(i, when)
            elif o == 'status':
                check(i, when)
            else:
                m, j = models[i], op['dst']
                want_sig = op['sig']
                try:
                    st = sums[i].status()
                    start_ = (st[0], st[1], st[2]) if sig[i] else (st[0], st[1])
                except ValueError:
                    continue
                try:
                    if want_sig and sig[i]:
                        new = nu.LogSummer(dosig=True, start=start_)
                    elif want_sig:
                        new = nu.LogSummer(True, start_)
                    else:
                        new = nu.LogSummer(start=start_[:2])
                except (ValueError, TypeError) as e:
                    sim.nontrivial = True
                    sim.probe('refused')
                    # without the sum of squares the standard deviation cannot be known
                    if not (want_sig and not sig[i]):
                        raise Violation('spurious-error', '%s: resuming from %r raised %r' % (when, start_, e))
                    continue
                if want_sig and not sig[i]:
                    raise Violation('accepted', '%s: a sum with standard deviation was resumed from %r' % (when, start_))
                sim.fault('resumed')
                sums[j], models[j], sig[j] = new, m.copy(), want_sig
                check(j, when)
                check(i, when)
            sim.shape(o, i, op.get('v'), op.get('type'), models[i].n)
            sim.log(o, i, models[i].n, repr(models[i].vals[-1:]))
            sim.ok()
        for i in range(len(sums)):
            check(i, 'finally')
        for j in range(len(gens)):
            if gens[j] is not None:
                while step(j):
                    pass


SCENARIO = P23()
