"""P09: engines stop within their evaluation budget whatever the user function returns, and never report unearned success."""

import hashlib
import json
import math
import random
import struct

from . import engines
from .core import Scenario, Violation

MODES = ['nan', 'inf', '-inf', 'const', 'zero', 'noise', 'mono', 'steep', 'good', 'spike_nan', 'spike_inf', 'after_nan', 'after_inf', 'after_const',
         'rough', 'huge', 'flat_then_drop', 'tiny']


def h01(args, salt):
    """A number in [0,1) fixed by the point."""
    b = b''.join(struct.pack('<d', float(v)) for v in args)
    return int.from_bytes(hashlib.blake2b(b + struct.pack('<q', salt), digest_size=6).digest(), 'big') / float(1 << 48)


EASY = ['brent', 'linmin', 'powell', 'zbracket', 'dllsteps', 'obsinfo', 'adapt', 'adapt_vec', 'refused']


class P09(Scenario):
    pid = 'P09'
    quick_runs = 21000
    hang_s = 40
    list_fields = ('jobs',)
    rule = ('A run calls a seeded sequence of engines with user functions returning hostile values (NaN, infinities, constants, noise, '
            'unbounded or collapsing values, values that turn bad after some evaluations); non-trivial = a hostile value was returned. '
            'Distinct = distinct hash of engine, value family, settings and outcome.')
    real = ['deriv.obsinfo (Fortran)', 'integrate.adapt and adapt_vec (Fortran)', 'utils.nrmin', 'utils.numutils.zbracket', 'grid.grid1d', 'grid.hpdgrid']
    stub = ['the user functions']
    assumptions = ['a user function may turn bad once but does not drift with every call', 'adapt may overshoot its limit by one round of subdivision']

    def setup(self):
        engines.setup()

    def gen(self, rng):
        jobs = []
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < .25:
                jobs.append(dict(easy=rng.choice(EASY), s=rng.randrange(1 << 30)))
                continue
            kind = rng.choice(['dllsteps', 'obsinfo', 'adapt', 'adapt_vec', 'brent', 'bracket', 'linmin', 'powell', 'powell', 'zbracket', 'grid1d',
                               'hpdgrid1d', 'dllsteps', 'adapt_vec', 'adapt'])
            jobs.append(dict(kind=kind, mode=rng.choice(MODES), s=rng.randrange(1 << 30), n=rng.choice([1, 2, 3]), p=rng.choice([0.02, 0.2, 0.7]),
                             after=rng.choice([0, 1, 3, 10, 50, 200]), maxit=rng.choice([1, 3, 10, 20]), fac=rng.choice([3, 7, 20, 45]),
                             acc=rng.choice([1e-2, 1e-4, 1e-8]), abseps=rng.choice([0., 0., 1e-6, 1e-2]), dll=rng.choice([0.5, 1., 3.]), nf=rng.randrange(1, 4), key=rng.choice([0, 3, 4]),
                             wrk=rng.choice([1, 1, 2, 5]), given=rng.random() < 0.5, scale=rng.choice([1e-3, 1., 1., 1e4])))
        return dict(jobs=jobs)

    def simplify(self, plan):
        for i, j in enumerate(plan['jobs']):
            if 'easy' in j:
                continue
            for key, v in (('n', 1), ('mode', 'nan'), ('mode', 'const'), ('fac', 3), ('maxit', 3), ('scale', 1.), ('after', 0), ('given', True)):
                if j[key] != v:
                    p = json.loads(json.dumps(plan))
                    p['jobs'][i][key] = v
                    yield p

    def run(self, plan, sim):
        for spec in plan['jobs']:
            if 'easy' in spec:
                self.easy(spec, sim)
            else:
                self.one(spec, sim)

    def one(self, s, sim):
        np = engines.np
        kind, mode = s['kind'], s['mode']
        n = s['n']
        if kind in ('adapt', 'adapt_vec'):
            n = max(n, 2)
        rnd = random.Random(s['s'])
        mu = [rnd.uniform(-2, 2) * s['scale'] for _ in range(n)]
        sc = [rnd.uniform(0.4, 2.) * s['scale'] for _ in range(n)]
        salt = s['s']
        cnt = [0]
        evals = []
        good = -1. if kind in ('dllsteps', 'obsinfo', 'hpdgrid1d', 'grid1d') else 1.
        budget = [None]

        def value(x):
            """The user function's value at point x, evaluation number cnt."""
            q = sum(((v - m) / w) ** 2 for v, m, w in zip(x, mu, sc))
            base = good * 0.5 * q
            k = cnt[0]
            if mode == 'good':
                return base
            sim.nontrivial = True
            if mode == 'nan':
                return math.nan
            if mode == 'inf':
                return math.inf
            if mode == '-inf':
                return -math.inf
            if mode == 'const':
                return 3.25
            if mode == 'zero':
                return 0.
            if mode == 'noise':
                return h01(x, salt)
            if mode == 'mono':
                return -sum(x)
            if mode == 'steep':
                return -math.exp(min(700., max(-700., sum(x) / s['scale'])))
            if mode == 'spike_nan':
                return math.nan if h01(x, salt) < s['p'] else base
            if mode == 'spike_inf':
                return math.inf if h01(x, salt) < s['p'] else base
            if mode.startswith('after_'):
                if k > s['after']:
                    return dict(nan=math.nan, inf=math.inf, const=base * 0. + 1.)[mode[6:]]
                return base
            if mode == 'rough':
                return base + 0.1 * h01(x, salt)
            if mode == 'huge':
                return base * 1e300
            if mode == 'flat_then_drop':
                return 0. if q < 1e4 else -q
            return base * 1e-310

        def note(x):
            cnt[0] += 1
            x = tuple(float(v) for v in x)
            if budget[0] is not None and cnt[0] > budget[0]:
                raise Violation('over-budget', '%s made more than %d evaluations of a user function returning %s values'
                                % (kind, budget[0], mode))
            v = value(x)
            if v != v or math.isinf(v):
                sim.probe('non_finite_values')
            evals.append((x, v))
            return v

        f = lambda x: note(x)
        f1 = lambda x: note((x,))
        sim.op(kind)
        if mode != 'good':
            sim.faults['hostile_' + mode.split('_')[0]] = sim.faults.get('hostile_' + mode.split('_')[0], 0) + 1
        res = err = None
        low, up = [-1. * s['scale']] * n, [2. * s['scale']] * n
        try:
            if kind == 'dllsteps':
                budget[0] = 1 + n * (203 + 2 * (s['maxit'] + 1))
                res = engines.obsinfo.dllsteps(f, np.array(mu), 0.3 * np.array(sc), s['dll'], 0. if s['given'] else None, s['maxit'], 0.01)
            elif kind == 'obsinfo':
                budget[0] = 1 + (s['maxit'] % 5 + 1) * (2 * n + 2 * n * (n - 1)) * 2 + 4
                res = engines.obsinfo.obsinfo(f, np.array(mu), 0.3 * np.array(sc), 0. if s['given'] else None, s['maxit'] % 5)
            elif kind == 'adapt':
                maxpts = engines.adapt.adapt_sizes(n, s['fac'])[1]
                # the last round of subdivision may overshoot the limit
                budget[0] = int(1.1 * maxpts) + 6 * (maxpts // s['fac'])
                res = engines.adapt.adapt(f, np.array(low), np.array(up), s['acc'], s['fac'], s['wrk'])
            elif kind == 'adapt_vec':
                maxpts = 150 * s['fac']
                budget[0] = maxpts
                minpts = s['after'] * s['fac'] // 2 if s['after'] < 300 else 0
                abseps = s.get('abseps', 0.)
                key = s['key'] if not s['given'] or n > 3 else n - 1
                res = engines.adapt_vec.adapt_vec(s['nf'], lambda x: np.array([note(x), 1., 2. + x[0]][:s['nf']]), np.array(low), np.array(up),
                                                  s['acc'], key=key, minpts=minpts, maxpts=maxpts, abseps=abseps)
            elif kind in ('brent', 'bracket'):
                budget[0] = 6000
                b = engines.nrmin.MinBracket(f1, mu[0], mu[0] + sc[0])
                nb = cnt[0]
                for x, fx in ((b.x1, b.f1), (b.xm, b.fm), (b.x2, b.f2)):
                    self.evaluated(sim, kind, evals, (x,), fx)
                if not (b.x1 <= b.x2) and all(v == v for v in (b.x1, b.x2)):
                    raise Violation('bad-bracket', 'MinBracket returned its end points in the wrong order: %r %r' % (b.x1, b.x2))
                res = ()
                seen = [v for _, v in evals]
                if all(math.isfinite(v) for v in seen) and not (b.x1 <= b.xm <= b.x2 and b.fm <= b.f1 and b.fm <= b.f2):
                    raise Violation('unearned-success', 'MinBracket returned the points %r with values %r, which bracket no minimum' % ((b.x1, b.xm, b.x2), (b.f1, b.fm, b.f2)))
                if kind == 'brent':
                    budget[0] = nb + s['maxit'] + 1
                    res = engines.nrmin.brent(f1, b, 1e-6, s['maxit'])
            elif kind == 'linmin':
                budget[0] = 6101
                res = engines.nrmin.linmin(f, np.array(mu) + 0.7 * np.array(sc), np.array(sc))
            elif kind == 'powell':
                budget[0] = 1 + s['maxit'] * (1 + (n + 1) * 2100)
                res = engines.nrmin.powell(f, np.array(mu) + 0.7 * np.array(sc), np.diag(sc), maxit=s['maxit'], shuffle=s['given'])
            elif kind == 'zbracket':
                budget[0] = 2 + s['maxit']
                res = engines.numutils.zbracket(f1, mu[0], mu[0] + sc[0], maxtries=s['maxit'])
            elif kind == 'grid1d':
                m = 3 + s['fac']
                budget[0] = m
                g = engines.grid1d.Grid1D(1., 10., m)
                g.firstpass(f1)
                res = ()
                if cnt[0] != m:
                    raise Violation('over-budget', 'Grid1D.firstpass made %d evaluations on a grid of %d points' % (cnt[0], m))
            elif kind == 'hpdgrid1d':
                m = 3 + s['fac']
                budget[0] = m
                engines.hpdgrid.HPDGrid1D(f1, 1., 10., m)
                res = ()
                if cnt[0] != m:
                    raise Violation('over-budget', 'HPDGrid1D made %d evaluations on a grid of %d points' % (cnt[0], m))
        except Violation:
            raise
        except Exception as e:
            err = e
            if not isinstance(e, (RuntimeError, ValueError, engines.nrmin.IterErr, ArithmeticError)):
                raise
        sim.ok()
        sim.shape(kind, mode, n, type(err).__name__, cnt[0])
        sim.log(kind, mode, cnt[0], engines.canon(res), type(err).__name__, str(err))
        sim.probe('succeeded' if err is None else 'gave_up')
        if err is not None or (isinstance(res, tuple) and not res):
            return
        # -- what a reported success must mean ---------------------------------
        if kind == 'dllsteps':
            target = (0. if s['given'] else evals[0][1]) - s['dll']
            for i in range(n):
                d = float(res[i])
                ok = any(abs(v - target) <= 0.010001 and abs((x[i] - mu[i]) - d) <= 1e-6 * abs(d) + 1e-12 * abs(mu[i])
                         for x, v in evals)
                if not ok:
                    raise Violation('unearned-success', 'dllsteps returned step %r for parameter %d, where no evaluation gave a value within '
                                    'tolerance of the target (values %s)' % (d, i, mode))
        elif kind == 'adapt':
            r, e, npts = res
            if not (e <= s['acc']) or r != r or math.isinf(r):
                raise Violation('unearned-success', 'adapt returned %r with relative error %r for a requested %r' % (r, e, s['acc']))
            # its own count leaves out one evaluation in each subregion
            if not 0 <= cnt[0] - npts <= npts // (maxpts // s['fac']):
                raise Violation('wrong-count', 'adapt reports %d evaluations and made %d' % (npts, cnt[0]))
        elif kind == 'adapt_vec':
            r, e, neval = res
            if not all(e[i] <= abs(r[i]) * s['acc'] or e[i] <= abseps for i in range(s['nf'])):
                raise Violation('unearned-success', 'adapt_vec returned %r with errors %r for a requested relative %r, absolute %r'
                                % (r, e, s['acc'], abseps))
            if neval < minpts:
                raise Violation('unearned-success', 'adapt_vec stopped after %d of at least %d evaluations' % (neval, minpts))
            if neval != cnt[0]:
                raise Violation('wrong-count', 'adapt_vec reports %d evaluations and made %d' % (neval, cnt[0]))
        elif kind == 'brent':
            self.evaluated(sim, kind, evals, (res[0],), res[1])
        elif kind in ('linmin', 'powell'):
            p, fret = res[0], res[-1] if kind == 'linmin' else res[1]
            self.evaluated(sim, kind, evals, tuple(p), fret)
            vals = [v for _, v in evals]
            if kind == 'powell' and not any(v != v for v in vals) and not mode.startswith('after') and not fret <= vals[0]:
                raise Violation('unearned-success', 'powell returned a point with value %r, worse than the start %r' % (fret, vals[0]))
            if kind == 'powell' and res[2] > s['maxit']:
                raise Violation('over-budget', 'powell reports %d iterations with maxit=%d' % (res[2], s['maxit']))
        elif kind == 'zbracket':
            d = {}
            for x, v in evals:
                d.setdefault(x[0], []).append(v)
            a, b = float(res[0]), float(res[1])
            if not (a in d and b in d and any(u * v < 0. for u in d[a] for v in d[b])):
                raise Violation('unearned-success', 'zbracket returned %r, between which the values %r and %r do not change sign'
                                % (res, d.get(a), d.get(b)))

    # -- well behaved functions: the routine must find what it looks for -----
    def easy(self, spec, sim):
        np = engines.np
        kind = spec['easy']
        r = random.Random(spec['s'])
        n = r.choice([1, 2, 3, 4])
        unit = 10 ** r.uniform(-3, 3)
        mu = np.array([r.uniform(-3, 3) * unit for _ in range(n)])
        w = np.array([r.uniform(.3, 3) * unit for _ in range(n)])
        a = np.eye(n)
        rho = r.uniform(-.8, .8)
        for i in range(n - 1):
            a[i, i + 1] = a[i + 1, i] = .5 * rho
        c = r.choice([1., 40., -7.])
        fam = r.choice(['quad', 'cosh', 'quart', 'pow'])
        count = [0]

        def f(x):
            count[0] += 1
            z = (np.array(x, float) - mu) / w
            q = float(z @ a @ z)
            if fam == 'quad':
                return c + .5 * q
            if fam == 'cosh':
                return c + sum(math.cosh(min(700., abs(v))) - 1. for v in z)
            if fam == 'sext':
                return c + q + .3 * float(sum(z ** 4)) + .1 * float(sum(z ** 6))
            if fam == 'quart':
                return c + q + .3 * float(sum(z ** 4))
            return c + float(sum(abs(z) ** 1.5))
        x0 = mu + np.array([r.uniform(-5, 5) for _ in range(n)]) * w
        sim.op('easy_' + kind)
        sim.ok()
        sim.shape('easy', kind, n, fam, spec['s'] % 97)
        what = '%s of a well behaved function (%s, %d-dimensional)' % (kind, fam, n)

        def bad(text):
            raise Violation('not-found', what + ' ' + text)
        try:
            if kind == 'brent':
                g = lambda x: f([x] + list(mu[1:]))
                b = engines.nrmin.MinBracket(g, float(x0[0]), float(x0[0] + r.choice([-1, 1]) * 10 ** r.uniform(-2, 1) * w[0]))
                if not (b.x1 <= b.xm <= b.x2 and b.fm <= b.f1 and b.fm <= b.f2 and b.x1 <= mu[0] + 1e-6 * w[0] and b.x2 >= mu[0] - 1e-6 * w[0]):
                    bad('is bracketed by %r with values %r, the minimum is at %r' % ((b.x1, b.xm, b.x2), (b.f1, b.fm, b.f2), mu[0]))
                x, fx = engines.nrmin.brent(g, b)
                if not (abs(x - mu[0]) <= 1e-4 * (w[0] + abs(mu[0])) and fx - c <= 1e-6 * max(1., abs(c))):
                    bad('gave %r at %r, the minimum is %r at %r' % (fx, x, c, mu[0]))
            elif kind == 'linmin':
                d = np.array([r.choice([-1, 1]) * r.uniform(.1, 1) for _ in range(n)]) * w
                p, dd, fx = engines.nrmin.linmin(f, x0, d)
                lo, hi = -400., 400.
                for _ in range(120):
                    u, v = lo + (hi - lo) * .381966, lo + (hi - lo) * .618034
                    if f(x0 + u * d) < f(x0 + v * d):
                        hi = v
                    else:
                        lo = u
                best = f(x0 + .5 * (lo + hi) * d)
                if not abs(fx - best) <= 1e-3 * max(1., abs(c)) or not np.allclose(p, x0 + dd, rtol=1e-9, atol=1e-9 * unit) or abs(f(p) - fx) > 1e-6 * max(1., abs(fx)):
                    bad('gave %r at %r after moving by %r, the minimum on that line is %r' % (fx, p, dd, best))
            elif kind == 'powell':
                p, fx, it = engines.nrmin.powell(f, x0, np.diag(w * 10 ** r.uniform(-1, .5)), shuffle=r.random() < .5)
                if not fx - c <= 1e-4 * max(1., abs(c)):
                    bad('gave %r at %r, the minimum is %r at %r' % (fx, p, c, mu))
            elif kind == 'zbracket':
                x1, gap = float(x0[0]), float(r.choice([-1, 1]) * 10 ** r.uniform(-1, .5) * w[0])
                g = lambda x, k=1.: k * math.tanh((x - mu[0]) / (30. * w[0]))
                kw = {}
                if r.random() < .5:
                    kw['vals'] = (g(x1, 2.), g(x1 + gap, 2.))
                if r.random() < .5:
                    kw['args'] = (2.,)
                if r.random() < .3:
                    kw['expand'] = r.choice([1.2, 2.5])
                lo, hi = engines.numutils.zbracket(g, x1, x1 + gap, **kw)
                if not min(lo, hi) <= mu[0] <= max(lo, hi) or not g(lo) * g(hi) < 0.:
                    bad('gave %r, the zero is at %r' % ((lo, hi), mu[0]))
            elif kind == 'dllsteps':
                fam = r.choice(['quad', 'quart', 'sext'])
                dll = r.choice([.5, 1., 3.])
                maxll = r.choice([None, -c])
                guess = w * 10 ** (r.uniform(-1.5, 1.) if fam == 'quad' else r.uniform(-2., -.5))
                d = engines.obsinfo.dllsteps(lambda x: -f(x), mu, guess, dll, maxll)
                for i in range(n):
                    if not abs(f(mu + d[i] * np.eye(n)[i]) - c - dll) <= .011 or d[i] <= 0.:
                        bad('gave step %r for parameter %d of scale %r and a change by %r' % (d[i], i, w[i], dll))
            elif kind == 'obsinfo':
                fam, least = r.choice([('quad', 0), ('quart', 1), ('sext', 2)])     # this many extrapolations make the differences exact
                it = r.randrange(least, 4)
                info, err = engines.obsinfo.obsinfo(lambda x: -f(x), mu, w * r.uniform(.3, 2. if least == 0 else .8), r.choice([None, -c]), it)
                true = (1. if least == 0 else 2.) * a / np.outer(w, w)
                if it > least and not (np.asarray(err) <= 1e-6 * abs(c) * (1. / np.outer(w, w))).all() or not (np.asarray(err) >= 0.).all() or it == 0 and np.asarray(err).any():
                    bad('with %d extrapolations claims errors %r' % (it, np.asarray(err).tolist()))
                if np.shape(info) != (n, n) or not (abs(info - true) <= 1e-6 * abs(c) * (1. / np.outer(w, w))).all():
                    bad('gave %r, the information is %r' % (np.asarray(info).tolist(), true.tolist()))
            elif kind in ('adapt', 'adapt_vec'):
                n = max(n, 2) if kind == 'adapt_vec' or r.random() < .5 else 2
                lo = np.array([r.uniform(-2, 0) * unit for _ in range(n)])
                up = lo + np.array([r.uniform(.5, 2.) * unit for _ in range(n)])
                vol = float(np.prod(up - lo))
                k = [r.uniform(.5, 2.) for _ in range(n)]
                # a product of exponentials, which no rule integrates exactly
                poly = lambda x: 2. * math.exp(sum(q * (v / unit) for q, v in zip(k, x)))
                i0 = 2. * math.prod((math.exp(q * u) - math.exp(q * l)) / (q * (u - l)) for q, l, u in zip(k, lo / unit, up / unit))
                i1 = 3.
                acc = 10 ** r.uniform(-3, -1)
                kw = {}
                if kind == 'adapt_vec' and n < 4 and r.random() < .5:
                    # a peak that needs subdivision
                    ce = [r.uniform(l, u) for l, u in zip(lo, up)]
                    wd = [r.uniform(.2, .6) * (u - l) for l, u in zip(lo, up)]
                    poly = lambda x: math.prod(1. / (1. + ((v - m) / s) ** 2) for v, m, s in zip(x, ce, wd))
                    i0 = math.prod(s * (math.atan((u - m) / s) - math.atan((l - m) / s)) for l, u, m, s in zip(lo, up, ce, wd)) / vol
                    kw = dict(maxpts=40000)
                if kind == 'adapt':
                    res, e, npts = engines.adapt.adapt(poly, lo, up, acc, r.choice([20, 100]), r.choice([1, 3]))
                    got, want = [res], [i0 * vol]
                else:
                    nf = r.choice([1, 2])
                    res, e, npts = engines.adapt_vec.adapt_vec(nf, lambda x: np.array([poly(x), 3.][:nf]), lo, up, acc, key=r.choice([0, 3, 4]), **kw)
                    got, want = list(res), [i0 * vol, i1 * vol][:nf]
                if len(got) != len(want) or not all(abs(g - q) <= (3. if kw else 1.) * acc * abs(q) for g, q in zip(got, want)):
                    bad('gave %r, the integral is %r' % (got, want))
            else:
                self.refused(r, n, unit, sim)
        except (RuntimeError, ValueError, ArithmeticError, engines.nrmin.IterErr) as e:
            bad('was given up: %r' % (e,))
        sim.log('easy', kind, count[0])

    def refused(self, r, n, unit, sim):
        """Requests that make no sense get an error, not a result."""
        np = engines.np
        k = r.randrange(8)
        f = lambda x: 1. + float(np.sum(np.asarray(x) ** 2))
        one, two = np.array([0.]), np.array([0., 0.])
        v = lambda x: np.array([f(x)])
        call = [lambda: engines.adapt.adapt(f, one, one + 1., .01),
                lambda: engines.adapt_vec.adapt_vec(1, v, one, one + 1., .01),
                lambda: engines.adapt_vec.adapt_vec(1, v, two, two + 1., .01, key=7),
                lambda: engines.adapt_vec.adapt_vec(1, v, two, two + 1., .01, maxpts=70),
                lambda: engines.adapt_vec.adapt_vec(1, v, two, two + 1., .01, minpts=5000, maxpts=400),
                lambda: engines.adapt_vec.adapt_vec(1, v, two, two + 1., -.01, abseps=-1.),
                lambda: engines.numutils.zbracket(f, 1. * unit, 1. * unit),
                lambda: engines.adapt_vec.adapt_vec(1, v, np.zeros(16), np.ones(16), .01)][k]
        try:
            res = call()
        except (RuntimeError, ValueError):
            sim.probe('refused')
            return
        raise Violation('unearned-success', 'impossible request %d was answered with %r' % (k, res))

    def evaluated(self, sim, kind, evals, x, fx):
        x = tuple(float(v) for v in x)
        same = lambda a, b: a == b or (a != a and b != b)
        sim.ok()
        if not any(all(same(a, b) for a, b in zip(p, x)) and same(v, fx) for p, v in evals):
            near = [v for p, v in evals if all(same(a, b) for a, b in zip(p, x))]
            raise Violation('unearned-success', '%s reports the value %r at %r, where evaluations gave %r' % (kind, fx, x, near))


SCENARIO = P09()
