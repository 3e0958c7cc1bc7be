"""P19: an adaptively refined grid holds the function's values at its own points, whatever failed before."""

import json
import math

from . import engines
from .core import Scenario, Violation
from .p06 import EXC, INTERRUPTS, make_exc

FEXC = [e for e in EXC if e not in ('IterErr',)]


class P19(Scenario):
    pid = 'P19'
    quick_runs = 12000
    rule = ('A run is a seeded history of first passes, refinements (with and without a dynamic range) and queries on 1-2 grids, with several functions (one to four peaks, scalar or tuple valued); planned '
            'calls of the function fail. After every completed step every point is compared with the function at that abscissa, the quadratures and moments with sums over those points, and everything (up to rounding) with a '
            'fresh grid that never failed. Non-trivial = a fault fired. Distinct = distinct hash of grids, operations, fault positions and outcomes.')
    real = ['grid.grid1d']
    stub = ['the user\'s function']
    assumptions = ['intervals are ascending; neighbouring points may coincide to rounding']

    def setup(self):
        engines.setup()

    def gen(self, rng):
        grids = []
        for _ in range(rng.choice([1, 1, 2])):
            grids.append(dict(lo=rng.uniform(.5, 2.), hi=rng.uniform(6., 12.), n=rng.choice([5, 9, 20, 41]), log=rng.random() < .2, nmax=rng.choice([None, None, 1, 2]),
                              sigpts=rng.choice([5, 11]), nsig=rng.choice([2, 4]), rank=rng.choice(['peak', 'peak', 'area'])))
        funcs = []
        for _ in range(2):
            funcs.append(dict(tup=rng.random() < .3, lst=rng.random() < .3, peaks=[[rng.uniform(2.5, 6.), rng.choice([.05, .2, .5, 1.]), rng.uniform(.2, 1.)] for _ in range(rng.randrange(1, 5))],
                              slope=rng.choice([0., 0., 0., .4, -.4])))
            if rng.random() < .04:
                funcs[-1]['slope'] = rng.choice([400., -400.])     # neighbouring values further apart than exp() reaches
        ops = []
        for _ in range(rng.choice([3, 6, 14])):
            op = dict(g=rng.randrange(len(grids)), fault=None)
            r = rng.random()
            if r < .35:
                op.update(op='first', f=rng.randrange(2))
            elif r < .7:
                op.update(op='refine', dyn=rng.choice([None, None, None, 10., 1e3]))
            else:
                op.update(op='query', q=rng.choice(['trapzd', 'logtrapzd', 'mom1', 'mom2', 'points']))
            if rng.random() < .4 and op['op'] != 'query':
                op['fault'] = [rng.choice([0, 1, 3, 8, 20, 45, 90, 150]), rng.choice(FEXC)]
            ops.append(op)
        return dict(grids=grids, funcs=funcs, ops=ops)

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            if op.get('fault'):
                p = json.loads(json.dumps(plan))
                p['ops'][i]['fault'] = None
                yield p
        for i, f in enumerate(plan['funcs']):
            if len(f['peaks']) > 1:
                p = json.loads(json.dumps(plan))
                p['funcs'][i]['peaks'].pop()
                yield p

    def func(self, fs, box=None):
        def f(x):
            if box is not None:
                box.setdefault('at', []).append(float(x))
            if box is not None and box.get('left') is not None:
                box['left'] -= 1
                if box['left'] < 0:
                    box['left'] = None
                    box['fired'] = box['exc']
                    raise box['exc']
            v = math.log(sum(h * math.exp(-.5 * ((x - c) / w) ** 2) for c, w, h in fs['peaks']) + 1e-250) + fs['slope'] * (x - (12. if fs['slope'] > 0 else 0.))
            if fs['tup']:
                return [2. * v, v] if fs['lst'] else (2. * v, v)
            return v
        return f

    def make(self, gs):
        return engines.grid1d.Grid1D(gs['lo'], gs['hi'], gs['n'], 'log' if gs['log'] else 'linear', nmax=gs['nmax'], sigpts=gs['sigpts'], nsig=gs['nsig'], rank=gs['rank'])

    def sel(self, fs):
        return 1 if fs['tup'] else None

    def observe(self, g, sel):
        """Everything a caller can read off a complete grid."""
        return [len(g), [g.point(i) for i in range(len(g))], g.trapzd(select=sel), g.logtrapzd(select=sel), g.logtrapzd_mom(1, select=sel), g.logtrapzd_mom(2, select=sel)]

    def truth(self, sim, gs, fs, g, obs, when):
        """Values are those of the function, quadratures those of the points."""
        n, pts, tr, ltr, m1, m2 = obs
        f = self.func(fs)
        pick = (lambda v: float(v[1])) if fs['tup'] else float
        xs, vs = [], []
        for i, (x, w, v) in enumerate(pts):
            sim.ok()
            if v is None or not engines.np.array_equal(engines.np.asarray(v, float), engines.np.asarray(f(x), float)):
                fx, vv = pick(f(x)), (math.nan if v is None else pick(v))
                # a shared boundary may have been reached by another sum of steps
                if not abs(fx - vv) <= 1e-6 * (1 + abs(fx)):
                    raise Violation('wrong-value', 'point %d of %d (%s) at %r holds %r, the function there is %r' % (i, n, when, x, v, f(x)))
            xs.append(float(x))
            vs.append(pick(v))
        step = (gs['hi'] - gs['lo']) / (gs['n'] - 1.)
        if abs(xs[0] - gs['lo']) > 1e-9 * step or abs(xs[-1] - gs['hi']) > 1e-6 * step or any(b - a < -1e-9 * step for a, b in zip(xs, xs[1:])):
            raise Violation('wrong-points', 'the abscissas (%s) do not run from %r to %r: %r' % (when, gs['lo'], gs['hi'], xs[:50]))
        ratio = (gs['hi'] / gs['lo']) ** (1. / (gs['n'] - 1))
        if any(b / a > ratio * (1 + 1e-6) if gs['log'] else b - a > step * (1 + 1e-6) for a, b in zip(xs, xs[1:])):
            raise Violation('wrong-points', 'the refined grid (%s) is coarser than the base grid' % when)
        m = max(vs)
        e = [math.exp(max(v - m, -700.)) for v in vs]

        def quad(y):
            return sum(.5 * (b - a) * (p + q) for a, b, p, q in zip(xs, xs[1:], y, y[1:]))
        s = quad(e)
        want = [quad(vs), m + math.log(s), quad([x * y for x, y in zip(xs, e)]) / s, quad([x * x * y for x, y in zip(xs, e)]) / s]
        got = [float(tr), float(ltr), float(m1[1]), float(m2[2])]
        for name, a, b in zip(('trapzd', 'logtrapzd', 'mean', 'second moment'), got, want):
            if not abs(a - b) <= 1e-7 * (1 + abs(b)):
                raise Violation('wrong-sum', '%s (%s) is %r, the grid points give %r' % (name, when, a, b))
        if not (abs(float(m1[0]) - got[1]) <= 1e-9 * (1 + abs(got[1])) and abs(float(m2[1]) - got[2]) <= 1e-9 * (1 + abs(got[2])) and abs(float(m2[0]) - got[1]) <= 1e-9 * (1 + abs(got[1]))):
            raise Violation('wrong-sum', 'logtrapzd and logtrapzd_mom disagree (%s): %r %r %r' % (when, ltr, m1, m2))

    def same(self, a, b):
        """Equal up to rounding: abscissas cached by one query may be summed in another order."""
        if isinstance(a, (list, tuple, engines.np.ndarray)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if a is None or b is None:
            return a is b
        a, b = float(a), float(b)
        return a == b or abs(a - b) <= 1e-9 * (1 + abs(b))

    def query(self, g, q, sel):
        if q == 'trapzd':
            return g.trapzd(select=sel)
        if q == 'logtrapzd':
            return g.logtrapzd(select=sel)
        if q == 'points':
            return [p for p in g]
        return g.logtrapzd_mom(1 if q == 'mom1' else 2, select=sel)

    def run(self, plan, sim):
        grids = [self.make(g) for g in plan['grids']]
        # per grid: function index of the last completed first pass, refinements since, complete?
        state = [dict(f=None, refs=[], whole=False, obs=None) for _ in grids]
        box = {}
        for i, op in enumerate(plan['ops']):
            k = op['g']
            g, gs, st = grids[k], plan['grids'][k], state[k]
            box.clear()
            if op['fault']:
                box.update(left=op['fault'][0], exc=make_exc(op['fault'][1], i))
            got = err = None
            sim.op(op['op'])
            try:
                if op['op'] == 'first':
                    fs = plan['funcs'][op['f']]
                    g.firstpass(self.func(fs, box), select=self.sel(fs))
                elif op['op'] == 'refine':
                    g.refine(op['dyn'])
                else:
                    fs = plan['funcs'][st['f']] if st['f'] is not None else plan['funcs'][0]
                    got = self.query(g, op['q'], self.sel(fs))
            except BaseException as e:
                err = e
            fired = box.get('fired')
            out = [x for x in box.get('at', []) if not gs['lo'] <= x <= gs['hi']]
            box.clear()
            if out:
                raise Violation('outside', '%s evaluated the function at %r, outside the grid interval [%r, %r]' % (op['op'], out[:5], gs['lo'], gs['hi']))
            sim.shape(k, op, type(err).__name__)
            sim.log(i, op['op'], repr(err))
            if fired is not None:
                sim.fault('interrupt_in_' + op['op'] if op['fault'][1] in INTERRUPTS else op['op'] + '_error')
                if err is not fired:
                    raise Violation('wrong-error', 'the function raised %r during %s, the caller got %r' % (fired, op['op'], err))
                if op['op'] == 'first':
                    st.update(f=None, refs=[], whole=False, obs=None)
                else:
                    st['refs'] = st['refs'] + [op['dyn']]
                    st['whole'] = False
                self.broken(sim, plan, gs, g, st)
                continue
            if op['op'] == 'first':
                if err is not None:
                    raise Violation('spurious-error', 'firstpass raised %r although the function did not fail' % (err,))
                st.update(f=op['f'], refs=[], whole=True)
            elif op['op'] == 'refine':
                if st['f'] is None:
                    if not isinstance(err, RuntimeError):
                        raise Violation('unrefused', 'refine without a completed first pass gave %r' % (err,))
                    continue
                st['refs'] = st['refs'] + [op['dyn']]
                if err is None:
                    st['whole'] = True
                else:
                    _, werr = self.fresh(plan, gs, st)
                    if type(werr) is not type(err):
                        raise Violation('spurious-error', 'refine raised %r, for a fresh grid %r' % (err, werr))
                    sim.probe('refine-' + type(err).__name__)
                    st['whole'] = False
                    continue
            else:
                if not st['whole']:
                    if st['f'] is None and op['q'] != 'points' and err is None:
                        raise Violation('stale', '%s of a grid without completed first pass gave %r' % (op['q'], got))
                    continue
                if err is not None:
                    raise Violation('spurious-error', '%s of a complete grid raised %r' % (op['q'], err))
                obs = st['obs']
                want = {'trapzd': obs[2], 'logtrapzd': obs[3], 'mom1': obs[4], 'mom2': obs[5], 'points': obs[1]}[op['q']]
                if not self.same(got, want):
                    raise Violation('differs', '%s gave %r, before %r' % (op['q'], got, want))
                continue
            fs = plan['funcs'][st['f']]
            st['obs'] = self.observe(g, self.sel(fs))
            fresh, werr = self.fresh(plan, gs, st)
            when = 'after %s with %d refinements' % (op['op'], len(st['refs']))
            if werr is not None:
                raise Violation('differs', '%s succeeded where a fresh grid raised %r' % (op['op'], werr))
            if not self.same(st['obs'], self.observe(fresh, self.sel(fs))):
                raise Violation('differs', 'the grid %s is not that of a fresh grid: %d points, integral %r instead of %d points, integral %r'
                                % (when, len(g), st['obs'][3], len(fresh), self.observe(fresh, self.sel(fs))[3]))
            self.truth(sim, gs, fs, g, st['obs'], when)
            for q, (g2, s2) in enumerate(zip(grids, state)):
                if q != k and s2['whole'] and not self.same(self.observe(g2, self.sel(plan['funcs'][s2['f']])), s2['obs']):
                    raise Violation('crosstalk', 'grid %d changed when grid %d was worked on' % (q, k))

    def fresh(self, plan, gs, st):
        fs = plan['funcs'][st['f']]
        g = self.make(gs)
        err = None
        g.firstpass(self.func(fs), select=self.sel(fs))
        for d in st['refs']:
            try:
                g.refine(d)
                err = None
            except Exception as e:
                err = e
        return g, err

    def broken(self, sim, plan, gs, g, st):
        """After a failure a grid gives errors, or the answers of a grid that was complete before; never a mixture."""
        fs = plan['funcs'][st['f']] if st['f'] is not None else plan['funcs'][0]
        sim.ok()
        for q in ('trapzd', 'logtrapzd', 'mom1', 'mom2'):
            for sel in (None, 1):
                try:
                    got = self.query(g, q, sel)
                except Exception:
                    continue
                if st['f'] is None:
                    raise Violation('stale', '%s gave %r after the first pass failed' % (q, got))
                ok = []
                for refs in ([], st['refs'][:-1]):
                    h, e = self.fresh(plan, gs, dict(f=st['f'], refs=refs))
                    if e is None:
                        ok.append(self.query(h, q, self.sel(fs)))
                if not any(self.same(got, w) for w in ok):
                    raise Violation('partial', '%s gave %r after a refinement failed' % (q, got))
        try:
            pts = [g.point(j) for j in range(len(g))]
        except Exception:
            return
        f = self.func(fs)
        for x, w, v in pts:
            if v is None:
                continue
            if st['f'] is None:
                raise Violation('stale', 'point %r holds %r after the first pass failed' % (x, v))
            a, b = f(x), v
            if fs['tup']:
                a, b = a[1], b[1]
            if not abs(float(a) - float(b)) <= 1e-6 * (1 + abs(float(a))):
                raise Violation('partial', 'point %r holds %r, the function there is %r, after a refinement failed' % (x, v, f(x)))


SCENARIO = P19()
