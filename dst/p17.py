"""P17: credible-region queries are independent of each other, and the record of regions stays aligned whatever fails."""

import json
import math

from . import engines
from .core import Scenario, Violation
from .p06 import EXC, INTERRUPTS, make_exc

QEXC = [e for e in EXC if e not in ('NotImplementedError', 'IterErr')]
KINDS = ['hpd1d', 'hpd2d', 'hpdgrid1d', 'hpdgrid2d']


class Fault:
    """Raises in the n-th call of what it guards."""

    def __init__(self):
        self.left = None
        self.exc = None
        self.fired = None

    def arm(self, n, exc):
        self.left, self.exc, self.fired = n, exc, None

    def clear(self):
        self.left = self.fired = None

    def hit(self):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left = None
                self.fired = self.exc
                raise self.exc


class P17(Scenario):
    pid = 'P17'
    quick_runs = 12000
    rule = ('A run is a seeded history of credible-region queries on 1-3 HPD objects of four kinds over one- to seven-peaked densities on linear or logarithmic grids, mixed with refused or '
            'unsolvable queries and planned failures of the user\'s density (while a grid is built) or of the content function (inside a query). After every operation the recorded probabilities, '
            'ratios, levels and bounds of all objects are compared with the list of queries that succeeded, each result with the first answer of a fresh object, and its content with a reference quadrature. '
            'Non-trivial = a fault fired or a query failed. Distinct = distinct hash of kinds, queries, faults and outcomes.')
    real = ['grid.hpd', 'grid.hpdgrid', 'grid._gridquad (Fortran)', 'utils.numutils.zbracket', 'scipy.optimize.brentq']
    stub = ['the user\'s density function', 'the content function is wrapped by a subclass that can fail']
    assumptions = ['one object is used by one thread at a time', 'the caller does not change a density array after handing it over']

    def setup(self):
        engines.setup()

    def gen(self, rng):
        objs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            o = dict(kind=rng.choice(KINDS), log=rng.random() < .35, n=rng.choice([15, 31, 60, 101]), edge=rng.random() < .15, ylog=rng.random() < .3, name=rng.randrange(2), refuse=rng.choice([None, None, None, 'dims', 'step', 'ystep']), shift=rng.choice([0., 0., -700., 300.]), fault=None)
            np_ = rng.choice([1, 1, 1, 2, 3, 7])
            o['peaks'] = [[rng.uniform(.2, .8) if np_ < 7 else (i + .5) / 7., rng.uniform(.04, .15) if np_ < 7 else .02, rng.uniform(.3, 1.)] for i in range(np_)]
            if o['edge']:
                o['peaks'][0][0] = rng.choice([0., 1.])
            if np_ == 7:
                o['n'] = 120
            if rng.random() < .2:
                # a hard limit of the parameter: zero density beyond it
                o['cut'] = rng.choice([[rng.uniform(.05, .5), 1.1], [-.1, rng.uniform(.5, .95)], [rng.uniform(.05, .4), rng.uniform(.6, .95)]])
            if o['kind'].endswith('2d'):
                o['n'] = min(o['n'], 24)
            if rng.random() < .25:
                o['fault'] = [rng.randrange(o['n']), rng.choice(QEXC)]
            objs.append(o)
        ops = []
        for _ in range(rng.choice([2, 5, 12])):
            op = dict(o=rng.randrange(len(objs)), fault=None)
            r = rng.random()
            if r < .5:
                op.update(op='p', p=rng.choice([.5, .68, .9, .95, .99, .999, rng.uniform(.05, .99)]))
            elif r < .7:
                op.update(op='snsig', s=rng.choice([1, 2, 3, 1., .5, rng.uniform(.3, 3.)]))
            elif r < .85:
                op.update(op='bad', v=rng.choice(['both', 'none', 0, 1., 1.5, -.1, 'nan', 1 - 1e-13, 'str']))
            else:
                op.update(op='frac', l=-rng.uniform(0., 6.))
            if rng.random() < .3:
                op['fault'] = [rng.choice([0, 1, 2, 3, 5, 8]), rng.choice(QEXC)]
            ops.append(op)
        return dict(objs=objs, ops=ops)

    def simplify(self, plan):
        for field in ('ops', 'objs'):
            for i, op in enumerate(plan[field]):
                if op.get('fault'):
                    p = json.loads(json.dumps(plan))
                    p[field][i]['fault'] = None
                    yield p

    # -- densities

    def grid(self, o, lo, hi, n):
        if o['log']:
            return engines.log_range(lo, hi, n)
        return [lo + (hi - lo) * i / (n - 1.) for i in range(n)]

    def ygrid(self, o):
        n = o['n'] + 2
        return engines.log_range(2., 9., n) if o['ylog'] else [2. + 7. * i / (n - 1.) for i in range(n)]

    def ydens(self, o):
        return lambda y: -.5 * ((y - 5.) / 1.3) ** 2

    def dens(self, o, lo, hi):
        def f(x):
            u = math.log(x / lo) / math.log(hi / lo) if o['log'] else (x - lo) / (hi - lo)
            if o.get('cut') and not o['cut'][0] <= u <= o['cut'][1]:
                return -math.inf
            s = sum(h * math.exp(-.5 * ((u - c) / w) ** 2) for c, w, h in o['peaks'])
            s = math.log(s + 1e-30) + o['shift']
            return s - math.log(x) if o['log'] else s
        return f

    def build(self, o, fault):
        np = engines.np
        k = o['kind']
        f = self.dens(o, 1., 10.)
        n = o['n']
        step = [['linear', 'lin'], ['log', 'logarithmic']][o['log']][o.get('name', 0)]

        class Content:
            def fracgt(self, logratio):
                fault.hit()
                return super().fracgt(logratio)
        g = self.ydens(o)
        xs, ys = self.grid(o, 1., 10., n), self.ygrid(o)
        ystep = [['lin', 'linear'], ['logarithmic', 'log']][o['ylog']][o.get('name', 0)]
        if k == 'hpd1d':
            c = type('H', (Content, engines.hpd.HPD1D), {})
            return c(np.array([f(x) for x in xs]), 1., 10., step)
        if k == 'hpd2d':
            c = type('H', (Content, engines.hpd.HPD2D), {})
            return c(np.array([[f(x) + g(y) for y in ys] for x in xs]), 1., 10., 2., 9., step, ystep)

        def f1(x):
            fault.hit()
            return f(x)

        def f2(x, y):
            fault.hit()
            return f(x) + g(y)
        if k == 'hpdgrid1d':
            c = type('H', (Content, engines.hpdgrid.HPDGrid1D), {})
            return c(f1, 1., 10., n, step)
        c = type('H', (Content, engines.hpdgrid.HPDGrid2D), {})
        return c(f2, 1., 10., n, 2., 9., n + 2, step, ystep)

    def refuse(self, sim, o):
        """Arrays of the wrong dimension and unknown kinds of step are refused."""
        np = engines.np
        r, two, k = o['refuse'], o['kind'].endswith('2d'), o['kind']
        hpd, hpdgrid = engines.hpd, engines.hpdgrid
        bad = 'cubic'
        if r == 'dims':
            if 'grid' in k:
                return
            shapes = [(5,), (2, 5, 4)] if two else [(1, 5), (5, 1), (2, 3, 4)]
            calls = [lambda s=s: (hpd.HPD2D(np.zeros(s), 1., 2., 1., 2.) if two else hpd.HPD1D(np.zeros(s), 1., 2.)) for s in shapes]
        elif two:
            st = ('lin', bad) if r == 'ystep' else (bad, 'lin')
            calls = [(lambda: hpdgrid.HPDGrid2D(lambda x, y: 0., 1., 2., 5, 1., 2., 6, *st)) if 'grid' in k else (lambda: hpd.HPD2D(np.zeros((5, 6)), 1., 2., 1., 2., *st))]
        else:
            calls = [(lambda: hpdgrid.HPDGrid1D(lambda x: 0., 1., 2., 5, bad)) if 'grid' in k else (lambda: hpd.HPD1D(np.zeros(5), 1., 2., bad))]
        for c in calls:
            try:
                c()
            except ValueError:
                sim.probe('grid-refused')
                continue
            raise Violation('accepted', 'a grid with wrong %s was accepted by %s' % (r, k))

    # -- reference content

    def content(self, o, crit):
        """Quadrature of the scaled density above `crit`, as a fraction of the whole."""
        part, tot, _ = self.quad(o, crit)
        return part / tot

    def lml(self, o):
        """Log of the integral of the density over the grid."""
        _, tot, m = self.quad(o, 1.)
        n = o['n']
        d = (math.log(10.) if o['log'] else 9.) / (n - 1)
        if o['kind'].endswith('2d'):
            d *= (math.log(4.5) if o['ylog'] else 7.) / (n + 1)
        return math.log(tot * d) + m

    def quad(self, o, crit):
        f = self.dens(o, 1., 10.)
        n = o['n']
        xs = self.grid(o, 1., 10., n)
        lx = [f(x) for x in xs]
        jac = xs if o['log'] else [1.] * n
        if not o['kind'].endswith('2d'):
            m = max(lx)
            z = [math.exp(l - m) * j for l, j in zip(lx, jac)]
            return self.above(z, crit), self.above(z, min(z)), m
        ys = self.ygrid(o)
        g = self.ydens(o)
        ly = [g(y) for y in ys]
        m = max(lx) + max(ly)
        if o['ylog']:
            ly = [l + math.log(y) for l, y in zip(ly, ys)]
        tot = part = 0.
        low = min(math.exp(l + b - m) * j for l, j in zip(lx, jac) for b in ly)
        for i, (l, j) in enumerate(zip(lx, jac)):
            z = [math.exp(l + b - m) * j for b in ly]
            w = .5 if i in (0, n - 1) else 1.
            part += w * self.above(z, crit)
            tot += w * self.above(z, low)
        return part, tot, m

    def above(self, z, crit):
        s = 0.
        for a, b in zip(z, z[1:]):
            if a > crit and b > crit:
                s += .5 * (a + b)
            elif a > crit or b > crit:
                hi, lo = max(a, b), min(a, b)
                s += .5 * (hi + crit) * (hi - crit) / (hi - lo)
        return s

    # -- run

    def call(self, h, op):
        k = op['op']
        if k == 'p':
            return h.critlevel(op['p'])
        if k == 'snsig':
            return h.critlevel(snsig=op['s'])
        if k == 'frac':
            return h.fracgt(op['l'])
        v = op['v']
        if v == 'both':
            return h.critlevel(.5, snsig=1.)
        if v == 'none':
            return h.critlevel()
        if v == 'nan':
            return h.critlevel(math.nan)
        if v == 'str':
            return h.critlevel('abc')
        return h.critlevel(v)

    def records(self, h):
        out = [h.probs, h.deltas, h.levels]
        if hasattr(h, 'bounds'):
            out.append(h.bounds)
        return [len(r) for r in out], engines.canon([list(r) for r in out])

    def run(self, plan, sim):
        canon = engines.canon
        objs, hist, faults = [], [], []
        for i, o in enumerate(plan['objs']):
            ft = Fault()
            if o['fault']:
                ft.arm(o['fault'][0], make_exc(o['fault'][1], i))
            try:
                h = self.build(o, ft)
            except BaseException as e:
                if ft.fired is None or e is not ft.fired:
                    raise Violation('wrong-error', 'building a grid raised %r, the density raised %r' % (e, ft.fired))
                sim.fault('interrupt_in_density' if o['fault'][1] in INTERRUPTS else 'density_error')
                ft.clear()
                h = self.build(o, ft)
            else:
                if ft.fired is not None:
                    raise Violation('swallowed', 'the density raised %r, a grid was returned' % (ft.fired,))
            ft.clear()
            rng = [getattr(h, a, None) for a in ('xlo', 'xhi')] + ([getattr(h, a, None) for a in ('ylo', 'yhi')] if o['kind'].endswith('2d') else [])
            if rng != [1., 10., 2., 9.][:len(rng)]:
                raise Violation('wrong-range', 'the object says its grid spans %r' % (rng,))
            want = self.lml(o)
            for what, v in [('lml', h.lml)] + ([] if o['kind'].endswith('2d') else [('norm()', h.norm())]):
                if not abs(float(v) - want) <= 1e-7 * (1. + abs(want)):
                    raise Violation('wrong-norm', 'the %s of a grid is %r, the density integrates to %r' % (what, v, want))
            if o.get('refuse'):
                self.refuse(sim, o)
            objs.append(h)
            hist.append([])
            faults.append(ft)
            sim.shape(o['kind'], o['log'], len(o['peaks']), o['fault'])
        for i, op in enumerate(plan['ops']):
            k = op['o'] % len(objs) if objs else 0
            if not objs:
                return
            h, o, ft = objs[k], plan['objs'][k], faults[k]
            free = Fault()
            fresh = self.build(o, free)
            try:
                want, werr = self.call(fresh, op), None
            except Exception as e:
                want, werr = None, e
            if op['fault']:
                ft.arm(op['fault'][0], make_exc(op['fault'][1], i))
            sim.op(op['op'])
            got = err = None
            try:
                got = self.call(h, op)
            except BaseException as e:
                err = e
            fired = ft.fired
            ft.clear()
            sim.shape(op['op'], op.get('v'), op['fault'], type(err).__name__)
            sim.log(i, op['op'], repr(err), repr(got))
            if fired is not None:
                sim.fault('interrupt_in_query' if op['fault'][1] in INTERRUPTS else 'query_error')
                if err is not fired:
                    raise Violation('wrong-error', 'the content function raised %r in a query, the caller got %r' % (fired, err or got))
            elif op.get('v') == 'both' and op['op'] == 'bad' and not isinstance(err, ValueError):
                raise Violation('accepted', 'a query with both a probability and a number of deviations gave %r' % (err or got,))
            elif err is not None:
                sim.nontrivial = True
                sim.probe('query-' + type(err).__name__)
                if type(err) is not type(werr):
                    raise Violation('differs', 'query %r raised %r, by a fresh object it gives %r' % (op, err, werr or want))
                if op['op'] in ('p', 'snsig') and len(o['peaks']) == 1 and not o['edge'] and not o.get('cut') and self.prob(o, op) <= .9:
                    raise Violation('spurious-error', 'query %r of a smooth single-peaked density raised %r' % (op, err))
            else:
                if canon(got) != canon(want):
                    raise Violation('differs', 'query %r gave %r, by a fresh object %r' % (op, got, werr or want))
                if op['op'] != 'frac':
                    self.check(sim, o, h, op, got)
                    hist[k].append((self.prob(o, op), got))
                else:
                    w = self.content(o, math.exp(op['l']))
                    if abs(float(got) - w) > 1e-6:
                        raise Violation('wrong-content', 'fracgt(%r) is %r, should be %r' % (op['l'], got, w))
            for q, (h2, hs) in enumerate(zip(objs, hist)):
                self.aligned(sim, plan['objs'][q], h2, hs, 'after %s of object %d' % (op['op'], k))

    def prob(self, o, op):
        if op['op'] == 'p':
            return op['p']
        if op['op'] == 'snsig':
            return math.erf(op['s'] / math.sqrt(2.))
        return op['v'] if not isinstance(op['v'], str) else math.nan

    def aligned(self, sim, o, h, hs, when):
        sim.ok()
        n, _ = self.records(h)
        if set(n) != {len(hs)}:
            raise Violation('misaligned', 'the object records %r probabilities, ratios, levels (and bounds) after %d successful queries %s' % (n, len(hs), when))
        two = o['kind'].endswith('2d')
        for i, (p, got) in enumerate(hs):
            lr = got if two else got[0]
            if p == p and abs(float(h.probs[i]) - p) > 1e-9:
                raise Violation('wrong-record', 'entry %d records probability %r, asked for %r %s' % (i, h.probs[i], p, when))
            if float(h.deltas[i]) != float(lr) or abs(float(h.levels[i]) - (float(h.max) + float(lr))) > 1e-9 * (1 + abs(h.max)):
                raise Violation('wrong-record', 'entry %d records ratio %r and level %r for a result %r (maximum %r) %s' % (i, h.deltas[i], h.levels[i], lr, h.max, when))
            if not two and list(h.bounds[i]) != list(got[1]):
                raise Violation('wrong-record', 'entry %d records bounds %r for a result %r %s' % (i, list(h.bounds[i]), list(got[1]), when))

    def check(self, sim, o, h, op, got):
        """The region found holds the probability asked for."""
        p = self.prob(o, op)
        two = o['kind'].endswith('2d')
        lr = float(got if two else got[0])
        if not (p == p and 0. < p < .9999):
            return
        sim.ok()
        a, b = self.content(o, math.exp(lr + 7e-4)), self.content(o, math.exp(lr - 7e-4))
        if not a - 1e-6 <= p <= b + 1e-6:
            raise Violation('wrong-region', 'the region found for probability %r has ratio %r and holds between %r and %r' % (p, lr, a, b))
        if two:
            return
        # bounds: where the density crosses the level, in order
        f = self.dens(o, 1., 10.)
        xs = self.grid(o, 1., 10., o['n'])
        m = max(f(x) for x in xs)
        ys = [f(x) - m + (math.log(x) if o['log'] else 0.) - lr for x in xs]
        want = []
        for x1, x2, y1, y2 in zip(xs, xs[1:], ys, ys[1:]):
            if y1 * y2 < 0.:
                # with zero density on one side, anywhere between the points
                want.append((x1, x2) if math.isinf(y1 - y2) else (x1 - (x2 - x1) * y1 / (y2 - y1),) * 2)
        if min(abs(y) for y in ys) < 1e-9:
            return                              # a grid point on the level itself
        bounds = [float(x) for x in got[1]]
        if len(bounds) != len(want) or not all(y[0] - 1e-6 * abs(y[0]) <= x <= y[1] + 1e-6 * abs(y[1]) for x, y in zip(bounds, want)):
            raise Violation('wrong-bounds', 'the bounds found for probability %r are %r, the density crosses the level at %r' % (p, bounds, [y[0] for y in want]))


SCENARIO = P17()
